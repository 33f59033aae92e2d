From d523abf554ec67f8cc60c4d7532ecdc528f863d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:52 +0000
Subject: [PATCH 001/160] fix: let CellBlock accept every fixed-size cell type
 of num_nodes_per_cell

---
 src/meshio/_mesh.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/meshio/_mesh.py b/src/meshio/_mesh.py
index 741831d..93e3412 100644
--- a/src/meshio/_mesh.py
+++ b/src/meshio/_mesh.py
@@ -72,6 +72,10 @@ topological_dimension = {
     "wedge288": 3,
     "wedge405": 3,
     "wedge550": 3,
+    "wedge15": 3,
+    "pyramid13": 3,
+    "hexahedron24": 3,
+    "hexahedron1331": 3,
     "VTK_LAGRANGE_CURVE": 1,
     "VTK_LAGRANGE_TRIANGLE": 2,
     "VTK_LAGRANGE_QUADRILATERAL": 2,
-- 
2.43.0


From f270552e72998df52f8b80ccbabf54fdad19ab2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:01 +0000
Subject: [PATCH 002/160] fix: vtk 4.2 reader keeps cell data when the file has
 polygons

---
 src/meshio/vtk/_vtk_42.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/meshio/vtk/_vtk_42.py b/src/meshio/vtk/_vtk_42.py
index f3cb469..ae88046 100644
--- a/src/meshio/vtk/_vtk_42.py
+++ b/src/meshio/vtk/_vtk_42.py
@@ -7,7 +7,7 @@ from functools import reduce
 import numpy as np
 
 from ..__about__ import __version__
-from .._common import warn
+from .._common import cell_data_from_raw, warn
 from .._exceptions import ReadError, WriteError
 from .._files import open_file
 from .._mesh import Mesh
@@ -529,7 +529,6 @@ def translate_cells(connectivity, types, cell_data_raw):
         if not np.all(numnodes == connectivity[offsets]):
             raise ReadError()
 
-        # TODO: cell_data
         for idx, vtk_cell_type in enumerate(types):
             start = offsets[idx] + 1
 
@@ -554,6 +553,7 @@ def translate_cells(connectivity, types, cell_data_raw):
             else:
                 # open up a new cell block
                 cells.append((cell_type, [cell]))
+        cell_data = cell_data_from_raw([c for _, c in cells], cell_data_raw)
     else:
         # Infer offsets from the cell types. This is much faster than manually going
         # through the data array. Slight disadvantage: This doesn't work for cells with
-- 
2.43.0


From 3424ddfd7357533e213a3f0857bc7357c2192b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:01 +0000
Subject: [PATCH 003/160] fix: read polygons and Lagrange cells with unsigned
 64-bit offsets

---
 src/meshio/_vtk_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/_vtk_common.py b/src/meshio/_vtk_common.py
index 9799187..4450102 100644
--- a/src/meshio/_vtk_common.py
+++ b/src/meshio/_vtk_common.py
@@ -132,7 +132,7 @@ def vtk_cells_from_data(connectivity, offsets, types, cell_data_raw):
 
             # Index where the previous block of cells stopped. Needed to know the number
             # of nodes for the first cell in the block.
-            first_node = 0 if start == 0 else offsets[start - 1]
+            first_node = offsets.dtype.type(0) if start == 0 else offsets[start - 1]
 
             # Start off the cell-node relation for each cell in this block
             start_cn = np.hstack((first_node, offsets[start:end]))
-- 
2.43.0


From 2d1af0e6e92f033fac8c22cd793cc166c8b377c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:02 +0000
Subject: [PATCH 004/160] fix: gmsh 2.2 reader splits element data by the
 number of cells per block

---
 src/meshio/gmsh/_gmsh22.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/gmsh/_gmsh22.py b/src/meshio/gmsh/_gmsh22.py
index 56fbdb6..1a9d4b4 100644
--- a/src/meshio/gmsh/_gmsh22.py
+++ b/src/meshio/gmsh/_gmsh22.py
@@ -72,7 +72,7 @@ def read_buffer(f, is_ascii, data_size):
     if has_additional_tag_data:
         warn("The file contains tag data that couldn't be processed.")
 
-    cell_data = cell_data_from_raw(cells, cell_data_raw)
+    cell_data = cell_data_from_raw([c for _, c in cells], cell_data_raw)
 
     # merge cell_tags into cell_data
     for tag_name, tag_dict in cell_tags.items():
-- 
2.43.0


From d1c3c9c08974e172fdde7f4cfc71344c9b55e4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:02 +0000
Subject: [PATCH 005/160] fix: gmsh 4.1 writer lists the entities of blocks
 without nodes of their own

---
 src/meshio/gmsh/_gmsh41.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/meshio/gmsh/_gmsh41.py b/src/meshio/gmsh/_gmsh41.py
index 3e305a1..eb67639 100644
--- a/src/meshio/gmsh/_gmsh41.py
+++ b/src/meshio/gmsh/_gmsh41.py
@@ -396,10 +396,23 @@ def _write_entities(fh, cells, tag_data, cell_sets, point_data, binary):
 
     fh.write(b"$Entities\n")
 
+    # Array of dimension and entity tag per cell. Will be compared with the
+    # similar not array.
+    cell_dim_tags = np.empty((len(cells), 2), dtype=int)
+    for ci, cell_block in enumerate(cells):
+        cell_dim_tags[ci] = [
+            cell_block.dim,
+            tag_data["gmsh:geometrical"][ci][0],
+        ]
+
     # Array of entity tag (first row) and dimension (second row) per node.
     # We need to combine the two, since entity tags are reset for each dimension.
-    # Uniquify, so that each row in node_dim_tags represent a unique entity
-    node_dim_tags = np.unique(point_data["gmsh:dim_tags"], axis=0)
+    # Uniquify, so that each row in node_dim_tags represent a unique entity. Include
+    # the entities of the cells: a cell block may have all of its nodes on the entities
+    # that bound its own.
+    node_dim_tags = np.unique(
+        np.concatenate([point_data["gmsh:dim_tags"], cell_dim_tags]), axis=0
+    )
 
     # Write number of entities per dimension
     num_occ = np.bincount(node_dim_tags[:, 0], minlength=4)
@@ -411,15 +424,6 @@ def _write_entities(fh, cells, tag_data, cell_sets, point_data, binary):
     else:
         fh.write(f"{num_occ[0]} {num_occ[1]} {num_occ[2]} {num_occ[3]}\n".encode())
 
-    # Array of dimension and entity tag per cell. Will be compared with the
-    # similar not array.
-    cell_dim_tags = np.empty((len(cells), 2), dtype=int)
-    for ci, cell_block in enumerate(cells):
-        cell_dim_tags[ci] = [
-            cell_block.dim,
-            tag_data["gmsh:geometrical"][ci][0],
-        ]
-
     # We will only deal with bounding entities if this information is available
     has_bounding_elements = "gmsh:bounding_entities" in cell_sets
 
-- 
2.43.0


From b20dd27e4527cafe2d60263d667644b3c2212681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:02 +0000
Subject: [PATCH 006/160] fix: gmsh 4.0 periodic section is written the way it
 is read

---
 src/meshio/gmsh/_gmsh40.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/meshio/gmsh/_gmsh40.py b/src/meshio/gmsh/_gmsh40.py
index 3d4270e..9304cf3 100644
--- a/src/meshio/gmsh/_gmsh40.py
+++ b/src/meshio/gmsh/_gmsh40.py
@@ -388,12 +388,15 @@ def _write_periodic(fh, periodic, float_fmt, binary):
     for dim, (stag, mtag), affine, slave_master in periodic:
         tofile(fh, [dim, stag, mtag], c_int)
         if affine is not None and len(affine) > 0:
-            tofile(fh, -1, c_long)
+            if binary:
+                tofile(fh, -1, c_long)
+            else:
+                fh.write(b"Affine ")
             tofile(fh, affine, c_double, fmt=float_fmt)
         slave_master = np.array(slave_master, dtype=c_int)
         slave_master = slave_master.reshape(-1, 2)
         slave_master = slave_master + 1  # Add one, Gmsh is 1-based
-        tofile(fh, len(slave_master), c_int)
+        tofile(fh, len(slave_master), c_long)
         tofile(fh, slave_master, c_int)
     if binary:
         fh.write(b"\n")
-- 
2.43.0


From 245c26e388b2316ce18db01f4dd5a4e9b71d27c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:24 +0000
Subject: [PATCH 007/160] fix: gmsh 4.1 reader attaches node data and periodic
 pairs to the right nodes

---
 src/meshio/gmsh/_gmsh41.py | 15 +++++++++++----
 src/meshio/gmsh/common.py  | 13 +++++++++++--
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/meshio/gmsh/_gmsh41.py b/src/meshio/gmsh/_gmsh41.py
index eb67639..0617e44 100644
--- a/src/meshio/gmsh/_gmsh41.py
+++ b/src/meshio/gmsh/_gmsh41.py
@@ -77,9 +77,11 @@ def read_buffer(f, is_ascii: bool, data_size):
                 field_data,
             )
         elif environ == "Periodic":
-            periodic = _read_periodic(f, is_ascii, data_size)
+            periodic = _read_periodic(f, point_tags, is_ascii, data_size)
         elif environ == "NodeData":
-            _read_data(f, "NodeData", point_data, data_size, is_ascii)
+            _read_data(
+                f, "NodeData", point_data, data_size, is_ascii, point_tags + 1
+            )
         elif environ == "ElementData":
             _read_data(f, "ElementData", cell_data_raw, data_size, is_ascii)
         else:
@@ -270,7 +272,11 @@ def _read_elements(
     return cells, cell_data, cell_sets
 
 
-def _read_periodic(f, is_ascii, data_size):
+def _read_periodic(f, point_tags, is_ascii, data_size):
+    # Inverse point tags
+    inv_tags = np.full(np.max(point_tags) + 1, -1, dtype=int)
+    inv_tags[point_tags] = np.arange(len(point_tags))
+
     fromfile = partial(np.fromfile, sep=" " if is_ascii else "")
     c_size_t = _size_type(data_size)
     periodic = []
@@ -286,7 +292,8 @@ def _read_periodic(f, is_ascii, data_size):
         num_nodes = int(fromfile(f, c_size_t, 1)[0])
         # nodeTag(size_t) nodeTagMaster(size_t) ...
         slave_master = fromfile(f, c_size_t, num_nodes * 2).reshape(-1, 2)
-        slave_master = slave_master - 1  # Subtract one, Python is 0-based
+        # Subtract one, Python is 0-based
+        slave_master = inv_tags[slave_master - 1]
         periodic.append([edim, (stag, mtag), affine, slave_master])
 
     _fast_forward_to_end_block(f, "Periodic")
diff --git a/src/meshio/gmsh/common.py b/src/meshio/gmsh/common.py
index 717e82e..e102784 100644
--- a/src/meshio/gmsh/common.py
+++ b/src/meshio/gmsh/common.py
@@ -50,7 +50,7 @@ def _read_physical_names(f, field_data):
     _fast_forward_to_end_block(f, "PhysicalNames")
 
 
-def _read_data(f, tag, data_dict, data_size, is_ascii):
+def _read_data(f, tag, data_dict, data_size, is_ascii, point_tags=None):
     # Read string tags
     num_string_tags = int(f.readline().decode())
     string_tags = [
@@ -70,17 +70,26 @@ def _read_data(f, tag, data_dict, data_size, is_ascii):
             (num_items, 1 + num_components)
         )
         # The first entry is the node number
+        index = data[:, 0]
         data = data[:, 1:]
     else:
         # binary
         dtype = [("index", c_int), ("values", c_double, (num_components,))]
         data = np.fromfile(f, count=num_items, dtype=dtype)
-        if not (data["index"] == range(1, num_items + 1)).all():
+        index = data["index"]
+        if point_tags is None and not (index == range(1, num_items + 1)).all():
             raise ReadError()
         data = np.ascontiguousarray(data["values"])
 
     _fast_forward_to_end_block(f, tag)
 
+    # The data refers to the nodes by their tags. Arrange it like the points.
+    if point_tags is not None:
+        order = np.argsort(index)
+        if not np.array_equal(index[order], np.sort(point_tags)):
+            raise ReadError(f"{tag} does not match the nodes of the mesh.")
+        data = data[order[np.searchsorted(index, point_tags, sorter=order)]]
+
     # The gmsh format cannot distinguish between data of shape (n,) and (n, 1).
     # If shape[1] == 1, cut it off.
     if data.shape[1] == 1:
-- 
2.43.0


From 9da214c6b161f449e84f87cd37f54b8a699f1dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:22 +0000
Subject: [PATCH 008/160] fix: XDMF mixed topologies with vertices, lines and
 higher-order cells

---
 src/meshio/xdmf/common.py      | 22 +++++++++-------------
 src/meshio/xdmf/time_series.py | 11 ++++++-----
 2 files changed, 15 insertions(+), 18 deletions(-)

diff --git a/src/meshio/xdmf/common.py b/src/meshio/xdmf/common.py
index fb7fcf3..cfbec07 100644
--- a/src/meshio/xdmf/common.py
+++ b/src/meshio/xdmf/common.py
@@ -1,5 +1,6 @@
 import numpy as np
 
+from .._common import num_nodes_per_cell
 from .._exceptions import ReadError
 from .._mesh import CellBlock
 
@@ -116,15 +117,7 @@ def translate_mixed_cells(data):
     # https://xdmf.org/index.php/XDMF_Model_and_Format#Arbitrary
     # https://gitlab.kitware.com/xdmf/xdmf/blob/master/XdmfTopologyType.hpp#L394
     xdmf_idx_to_num_nodes = {
-        1: 1,  # vertex
-        2: 2,  # line
-        4: 3,  # triangle
-        5: 4,  # quad
-        6: 4,  # tet
-        7: 5,  # pyramid
-        8: 6,  # wedge
-        9: 8,  # hex
-        11: 6,  # triangle6
+        k: num_nodes_per_cell[v] for k, v in xdmf_idx_to_meshio_type.items()
     }
 
     # collect types and offsets
@@ -135,9 +128,12 @@ def translate_mixed_cells(data):
         xdmf_type = data[r]
         types.append(xdmf_type)
         offsets.append(r)
-        if xdmf_type == 2:  # line
-            if data[r + 1] != 2:  # polyline
-                raise ReadError("XDMF reader: Only supports 2-point lines for now")
+        if xdmf_type in [1, 2]:  # polyvertex, polyline: the number of nodes follows
+            if data[r + 1] != xdmf_type:
+                raise ReadError(
+                    "XDMF reader: Only supports 1-point vertices and 2-point lines "
+                    "for now"
+                )
             r += 1
         r += 1
         r += xdmf_idx_to_num_nodes[xdmf_type]
@@ -150,7 +146,7 @@ def translate_mixed_cells(data):
     for start, end in zip(b[:-1], b[1:]):
         meshio_type = xdmf_idx_to_meshio_type[types[start]]
         n = xdmf_idx_to_num_nodes[types[start]]
-        point_offsets = offsets[start:end] + (2 if types[start] == 2 else 1)
+        point_offsets = offsets[start:end] + (2 if types[start] in [1, 2] else 1)
         indices = np.array([np.arange(n) + o for o in point_offsets])
         cells.append(CellBlock(meshio_type, data[indices]))
 
diff --git a/src/meshio/xdmf/time_series.py b/src/meshio/xdmf/time_series.py
index a3f8503..00c8399 100644
--- a/src/meshio/xdmf/time_series.py
+++ b/src/meshio/xdmf/time_series.py
@@ -406,11 +406,12 @@ class TimeSeriesWriter:
             )
             total_num_cell_items = sum(np.prod(c.data.shape) for c in cell_blocks)
             dim = total_num_cell_items + total_num_cells
-            # Lines translate to Polylines, and one needs to specify the exact
-            # number of nodes. Hence, prepend 2.
-            for c in cell_blocks:
-                if c.type == "line":
-                    c.data[:] = np.insert(c.data, 0, 2, axis=1)
+            # Vertices and lines translate to Polyvertices and Polylines, and one needs
+            # to specify the exact number of nodes. Hence, prepend 1 or 2.
+            for k, c in enumerate(cell_blocks):
+                if c.type in {"vertex", "line"}:
+                    data = np.insert(c.data, 0, c.data.shape[1], axis=1)
+                    cell_blocks[k] = CellBlock(c.type, data)
                     dim += len(c.data)
             dim = str(dim)
             cd = np.concatenate(
-- 
2.43.0


From 80d6e6c66c26d5434adbfee334f4f9dc27f3a887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:22 +0000
Subject: [PATCH 009/160] fix: XDMF mixed topology keeps the integer type of
 unsigned cells

---
 src/meshio/xdmf/main.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/meshio/xdmf/main.py b/src/meshio/xdmf/main.py
index 4d8c39d..bf4ab15 100644
--- a/src/meshio/xdmf/main.py
+++ b/src/meshio/xdmf/main.py
@@ -468,6 +468,7 @@ class XdmfWriter:
                                     2 if cell_block.type in {"vertex", "line"} else 1,
                                 ),
                                 meshio_type_to_xdmf_index[cell_block.type],
+                                dtype=cell_block.data.dtype,
                             ),
                             cell_block.data,
                         ]
-- 
2.43.0


From 005ed9d805e26011e41ebd65ebe9125e2f2bd3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:22 +0000
Subject: [PATCH 010/160] fix: XDMF XML output of 8- and 16-bit integers

---
 src/meshio/xdmf/common.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/meshio/xdmf/common.py b/src/meshio/xdmf/common.py
index cfbec07..3a85210 100644
--- a/src/meshio/xdmf/common.py
+++ b/src/meshio/xdmf/common.py
@@ -19,8 +19,12 @@ numpy_to_xdmf_dtype = {
 xdmf_to_numpy_type = {v: k for k, v in numpy_to_xdmf_dtype.items()}
 
 dtype_to_format_string = {
+    "int8": "%d",
+    "int16": "%d",
     "int32": "%d",
     "int64": "%d",
+    "uint8": "%d",
+    "uint16": "%d",
     "uint32": "%d",
     "uint64": "%d",
     "float32": "%.7e",
-- 
2.43.0


From dd134f48c9c71cae708343240bdac47e0e67db9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:22 +0000
Subject: [PATCH 011/160] fix: XDMF XML output of 3-dimensional arrays

---
 src/meshio/xdmf/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/xdmf/main.py b/src/meshio/xdmf/main.py
index bf4ab15..f464b83 100644
--- a/src/meshio/xdmf/main.py
+++ b/src/meshio/xdmf/main.py
@@ -376,7 +376,7 @@ class XdmfWriter:
         if self.data_format == "XML":
             s = BytesIO()
             fmt = dtype_to_format_string[data.dtype.name]
-            np.savetxt(s, data, fmt)
+            np.savetxt(s, data if data.ndim < 3 else data.flatten(), fmt)
             return "\n" + s.getvalue().decode()
         elif self.data_format == "Binary":
             base = os.path.splitext(self.filename)[0]
-- 
2.43.0


From 283a34b4490f00502d516a013d06e4d2b6bcd79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:22 +0000
Subject: [PATCH 012/160] fix: XDMF topology name Hex_1000

---
 src/meshio/xdmf/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/xdmf/common.py b/src/meshio/xdmf/common.py
index 3a85210..4045d21 100644
--- a/src/meshio/xdmf/common.py
+++ b/src/meshio/xdmf/common.py
@@ -64,7 +64,7 @@ meshio_to_xdmf_type = {
     "hexahedron343": ["Hexahedron_343", "Hex_343"],
     "hexahedron512": ["Hexahedron_512", "Hex_512"],
     "hexahedron729": ["Hexahedron_729", "Hex_729"],
-    "hexahedron1000": ["Hexahedron_1000", "Hex_100"],
+    "hexahedron1000": ["Hexahedron_1000", "Hex_1000"],
     "hexahedron1331": ["Hexahedron_1331", "Hex_1331"],
 }
 xdmf_to_meshio_type = {v: k for k, vals in meshio_to_xdmf_type.items() for v in vals}
-- 
2.43.0


From 80bf76d967a1694e38566bc52c5ddda5902245d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:22 +0000
Subject: [PATCH 013/160] fix: XDMF binary data is written in native byte order

---
 src/meshio/xdmf/main.py        | 3 ++-
 src/meshio/xdmf/time_series.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/meshio/xdmf/main.py b/src/meshio/xdmf/main.py
index f464b83..f722257 100644
--- a/src/meshio/xdmf/main.py
+++ b/src/meshio/xdmf/main.py
@@ -384,7 +384,8 @@ class XdmfWriter:
             self.data_counter += 1
             # write binary data to file
             with open(bin_filename, "wb") as f:
-                data.tofile(f)
+                # the format defaults to native byte order
+                data.astype(data.dtype.newbyteorder("="), copy=False).tofile(f)
             return bin_filename
 
         if self.data_format != "HDF":
diff --git a/src/meshio/xdmf/time_series.py b/src/meshio/xdmf/time_series.py
index 00c8399..9413cbd 100644
--- a/src/meshio/xdmf/time_series.py
+++ b/src/meshio/xdmf/time_series.py
@@ -328,7 +328,8 @@ class TimeSeriesWriter:
             self.data_counter += 1
             # write binary data to file
             with open(bin_filename, "wb") as f:
-                data.tofile(f)
+                # the format defaults to native byte order
+                data.astype(data.dtype.newbyteorder("="), copy=False).tofile(f)
             return bin_filename
 
         if self.data_format != "HDF":
-- 
2.43.0


From c3c23cd9ac126131028d5eba33e8d4de8fabccb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:22 +0000
Subject: [PATCH 014/160] fix: a rejected XDMF time step leaves no trace in the
 file

---
 src/meshio/xdmf/time_series.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/xdmf/time_series.py b/src/meshio/xdmf/time_series.py
index 9413cbd..5210a04 100644
--- a/src/meshio/xdmf/time_series.py
+++ b/src/meshio/xdmf/time_series.py
@@ -300,9 +300,9 @@ class TimeSeriesWriter:
         #     <DataItem Dimensions="8457 1" Format="HDF">maxwell.h5:/VisualisationVector/1</DataItem>
         #   </Attribute>
         # </Grid>
-        grid = ET.SubElement(self.collection, "Grid")
         if not self.has_mesh:
             raise WriteError()
+        grid = ET.SubElement(self.collection, "Grid")
         ptr = f'xpointer(//Grid[@Name="{self.mesh_name}"]/*[self::Topology or self::Geometry])'
         ET.SubElement(grid, "{http://www.w3.org/2003/XInclude}include", xpointer=ptr)
         ET.SubElement(grid, "Time", Value=str(t))
-- 
2.43.0


From bc4e2e25148efced9fb25556f7d88d57e0ab352c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:22 +0000
Subject: [PATCH 015/160] fix: XDMF data files live next to the XDMF file and
 are found from any directory

---
 src/meshio/xdmf/main.py        |  6 ++++--
 src/meshio/xdmf/time_series.py | 11 +++++++----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/meshio/xdmf/main.py b/src/meshio/xdmf/main.py
index f722257..ea3990b 100644
--- a/src/meshio/xdmf/main.py
+++ b/src/meshio/xdmf/main.py
@@ -92,8 +92,10 @@ class XdmfReader:
             return data.reshape(dims)
 
         elif fmt == "Binary":
+            # The file path is given with respect to the XDMF (XML) file.
             return np.fromfile(
-                data_item.text.strip(), dtype=xdmf_to_numpy_type[(data_type, precision)]
+                pathlib.Path(self.filename).resolve().parent / data_item.text.strip(),
+                dtype=xdmf_to_numpy_type[(data_type, precision)],
             ).reshape(dims)
 
         if fmt != "HDF":
@@ -386,7 +388,7 @@ class XdmfWriter:
             with open(bin_filename, "wb") as f:
                 # the format defaults to native byte order
                 data.astype(data.dtype.newbyteorder("="), copy=False).tofile(f)
-            return bin_filename
+            return os.path.basename(bin_filename)
 
         if self.data_format != "HDF":
             raise WriteError(f'Unknown data format "{self.data_format}"')
diff --git a/src/meshio/xdmf/time_series.py b/src/meshio/xdmf/time_series.py
index 5210a04..e0fe1cd 100644
--- a/src/meshio/xdmf/time_series.py
+++ b/src/meshio/xdmf/time_series.py
@@ -199,8 +199,10 @@ class TimeSeriesReader:
                 sep=" ",
             ).reshape(dims)
         elif data_format == "Binary":
+            # The file path is given with respect to the XDMF (XML) file.
             return np.fromfile(
-                data_item.text.strip(), dtype=xdmf_to_numpy_type[(data_type, precision)]
+                pathlib.Path(self.filename).resolve().parent / data_item.text.strip(),
+                dtype=xdmf_to_numpy_type[(data_type, precision)],
             ).reshape(dims)
 
         if data_format != "HDF":
@@ -262,7 +264,7 @@ class TimeSeriesWriter:
         if self.data_format == "HDF":
             import h5py
 
-            self.h5_filename = self.filename.stem + ".h5"
+            self.h5_filename = self.filename.with_suffix(".h5")
             self.h5_file = h5py.File(self.h5_filename, "w")
         return self
 
@@ -324,13 +326,14 @@ class TimeSeriesWriter:
             np.savetxt(s, data.flatten(), fmt)
             return s.getvalue().decode()
         elif self.data_format == "Binary":
-            bin_filename = f"{self.filename.stem}{self.data_counter}.bin"
+            base = os.path.splitext(self.filename)[0]
+            bin_filename = f"{base}{self.data_counter}.bin"
             self.data_counter += 1
             # write binary data to file
             with open(bin_filename, "wb") as f:
                 # the format defaults to native byte order
                 data.astype(data.dtype.newbyteorder("="), copy=False).tofile(f)
-            return bin_filename
+            return os.path.basename(bin_filename)
 
         if self.data_format != "HDF":
             raise WriteError()
-- 
2.43.0


From c55f32d2306edac4f77b26648413af18116fdf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:39 +0000
Subject: [PATCH 016/160] fix: PLY reader knows every scalar type of the
 format, uchar is unsigned

---
 src/meshio/ply/_ply.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/meshio/ply/_ply.py b/src/meshio/ply/_ply.py
index 4393cbc..5e05ba6 100644
--- a/src/meshio/ply/_ply.py
+++ b/src/meshio/ply/_ply.py
@@ -29,6 +29,7 @@ ply_to_numpy_dtype = {
     "ushort": np.uint16,
     "int": np.int32,
     "int8": np.int8,
+    "int16": np.int16,
     "int32": np.int32,
     "int64": np.int64,
     "uint": np.uint32,
@@ -264,7 +265,10 @@ def _read_binary(
     cell_data_dtypes,
 ):
     ply_to_numpy_dtype_string = {
-        "uchar": "i1",
+        "char": "i1",
+        "uchar": "u1",
+        "short": "i2",
+        "ushort": "u2",
         "uint": "u4",
         "uint8": "u1",
         "uint16": "u2",
@@ -272,10 +276,12 @@ def _read_binary(
         "uint64": "u8",
         "int": "i4",
         "int8": "i1",
+        "int16": "i2",
         "int32": "i4",
         "int64": "i8",
         "float": "f4",
         "float32": "f4",
+        "float64": "f8",
         "double": "f8",
     }
 
-- 
2.43.0


From 3ebb2c6d8b12214f171ce52a441fbdbc1e5f6623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:39 +0000
Subject: [PATCH 017/160] fix: PLY reader accepts two-dimensional points

---
 src/meshio/ply/_ply.py | 23 ++++++-----------------
 1 file changed, 6 insertions(+), 17 deletions(-)

diff --git a/src/meshio/ply/_ply.py b/src/meshio/ply/_ply.py
index 5e05ba6..b45cd91 100644
--- a/src/meshio/ply/_ply.py
+++ b/src/meshio/ply/_ply.py
@@ -189,23 +189,10 @@ def _read_ascii(
     pd = np.genfromtxt(f, max_rows=num_verts, dtype=dtype)
 
     # split off coordinate data and additional point data
-    verts = []
-    k = 0
-    if point_data_names[0] == "x":
-        verts.append(pd["x"])
-        k += 1
-    if point_data_names[1] == "y":
-        verts.append(pd["y"])
-        k += 1
-    if point_data_names[2] == "z":
-        verts.append(pd["z"])
-        k += 1
-    verts = np.column_stack(verts)
+    dim_names = [name for name in ["x", "y", "z"] if name in point_data_names]
+    verts = np.column_stack([pd[name] for name in dim_names])
 
-    point_data = {
-        point_data_names[i]: pd[point_data_names[i]]
-        for i in range(k, len(point_data_names))
-    }
+    point_data = {name: pd[name] for name in point_data_names if name not in dim_names}
     cell_data = {}
 
     cell_blocks = []
@@ -293,7 +280,9 @@ def _read_binary(
     point_data = np.frombuffer(
         f.read(num_verts * np.dtype(dtype).itemsize), dtype=dtype
     )
-    verts = np.column_stack([point_data["x"], point_data["y"], point_data["z"]])
+    verts = np.column_stack(
+        [point_data[name] for name in ["x", "y", "z"] if name in point_data_names]
+    )
     point_data = {
         name: point_data[name]
         for name in point_data_names
-- 
2.43.0


From ea067e21e267cc508465dcf07c7c037814c3f617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:39 +0000
Subject: [PATCH 018/160] fix: PLY ASCII files with a single vertex

---
 src/meshio/ply/_ply.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/ply/_ply.py b/src/meshio/ply/_ply.py
index b45cd91..1607b80 100644
--- a/src/meshio/ply/_ply.py
+++ b/src/meshio/ply/_ply.py
@@ -186,7 +186,7 @@ def _read_ascii(
             for name, fmt in zip(point_data_names, point_data_formats)
         ]
     )
-    pd = np.genfromtxt(f, max_rows=num_verts, dtype=dtype)
+    pd = np.atleast_1d(np.genfromtxt(f, max_rows=num_verts, dtype=dtype))
 
     # split off coordinate data and additional point data
     dim_names = [name for name in ["x", "y", "z"] if name in point_data_names]
-- 
2.43.0


From f98044f2e391fe0d274ead12aff3449c7b4a9efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:39 +0000
Subject: [PATCH 019/160] fix: PLY writer leaves the cells of the mesh alone

---
 src/meshio/ply/_ply.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/meshio/ply/_ply.py b/src/meshio/ply/_ply.py
index 1607b80..8d1e64b 100644
--- a/src/meshio/ply/_ply.py
+++ b/src/meshio/ply/_ply.py
@@ -437,6 +437,7 @@ def write(filename, mesh: Mesh, binary: bool = True):  # noqa: C901
             fh.write(f"property {type_name} {key}\n".encode())
             pd.append(value)
 
+        cells = list(mesh.cells)
         num_cells = 0
         legal_cell_types = ["vertex", "line", "triangle", "quad", "polygon"]
         for cell_block in mesh.cells:
@@ -447,12 +448,11 @@ def write(filename, mesh: Mesh, binary: bool = True):  # noqa: C901
             fh.write(f"element face {num_cells:d}\n".encode())
 
             # possibly cast down to int32
-            # TODO don't alter the mesh data
             has_cast = False
-            for k, cell_block in enumerate(mesh.cells):
+            for k, cell_block in enumerate(cells):
                 if cell_block.data.dtype == np.int64:
                     has_cast = True
-                    mesh.cells[k] = CellBlock(
+                    cells[k] = CellBlock(
                         cell_block.type, cell_block.data.astype(np.int32)
                     )
 
@@ -461,7 +461,7 @@ def write(filename, mesh: Mesh, binary: bool = True):  # noqa: C901
 
             # assert that all cell dtypes are equal
             cell_dtype = None
-            for cell_block in mesh.cells:
+            for cell_block in cells:
                 if cell_dtype is None:
                     cell_dtype = cell_block.data.dtype
                 if cell_block.data.dtype != cell_dtype:
@@ -480,7 +480,7 @@ def write(filename, mesh: Mesh, binary: bool = True):  # noqa: C901
             fh.write(out.tobytes())
 
             # cells
-            for cell_block in mesh.cells:
+            for cell_block in cells:
                 if cell_block.type not in legal_cell_types:
                     warn(
                         f'cell_type "{cell_block.type}" is not supported by PLY format '
@@ -503,7 +503,7 @@ def write(filename, mesh: Mesh, binary: bool = True):  # noqa: C901
             fh.write(out.encode())
 
             # cells
-            for cell_block in mesh.cells:
+            for cell_block in cells:
                 if cell_block.type not in legal_cell_types:
                     warn(
                         f'cell_type "{cell_block.type}" is not supported by PLY format '
-- 
2.43.0


From d1eabbbfb43d34bf09c6422d6e4a36d4a80dfcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:39 +0000
Subject: [PATCH 020/160] fix: WKT reader understands exponents

---
 src/meshio/wkt/_wkt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/wkt/_wkt.py b/src/meshio/wkt/_wkt.py
index 588f504..5c10fbd 100644
--- a/src/meshio/wkt/_wkt.py
+++ b/src/meshio/wkt/_wkt.py
@@ -10,7 +10,7 @@ from .._files import open_file
 from .._helpers import register_format
 from .._mesh import CellBlock, Mesh
 
-float_pattern = r"[+-]?(?:\d+\.?\d*|\d*\.?\d+)"
+float_pattern = r"[+-]?(?:\d+\.?\d*|\d*\.?\d+)(?:[eE][+-]?\d+)?"
 float_re = re.compile(float_pattern)
 
 point_pattern = r"{0}\s+{0}\s+{0}(?:\s+{0})?".format(float_pattern)
-- 
2.43.0


From d5a144398eaef8fad84fe3ab0fa619d57da5e857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:39 +0000
Subject: [PATCH 021/160] fix: Neuroglancer writer pads two-dimensional points

---
 src/meshio/neuroglancer/_neuroglancer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/meshio/neuroglancer/_neuroglancer.py b/src/meshio/neuroglancer/_neuroglancer.py
index ad48cc2..dab55a9 100644
--- a/src/meshio/neuroglancer/_neuroglancer.py
+++ b/src/meshio/neuroglancer/_neuroglancer.py
@@ -27,6 +27,12 @@ def write_buffer(f, mesh):
     :param meshio.Mesh mesh: Mesh object to write
     """
     vertices = np.asarray(mesh.points, "<f")
+    if vertices.shape[1] == 2:
+        warn(
+            "Neuroglancer requires 3D points, but 2D points given. "
+            "Appending 0 third component."
+        )
+        vertices = np.column_stack([vertices, np.zeros_like(vertices[:, 0])])
     skip = [c for c in mesh.cells if c.type != "triangle"]
     if skip:
         warn('Neuroglancer only supports triangle cells. Skipping {", ".join(skip)}.')
-- 
2.43.0


From 0dd6c8a5f6efd0c2a5fd094058729d574d75ff5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:39 +0000
Subject: [PATCH 022/160] fix: Neuroglancer reader rejects indices one past the
 end

---
 src/meshio/neuroglancer/_neuroglancer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/neuroglancer/_neuroglancer.py b/src/meshio/neuroglancer/_neuroglancer.py
index dab55a9..dd6ef81 100644
--- a/src/meshio/neuroglancer/_neuroglancer.py
+++ b/src/meshio/neuroglancer/_neuroglancer.py
@@ -77,7 +77,7 @@ def read_buffer(file):
         raise ReadError("The size of the precomputed mesh data is not adequate")
     flat_triangles = np.frombuffer(buf, "<I")
     triangles = np.reshape(flat_triangles, (-1, 3)).copy(order="C")  # TODO remove copy
-    if np.any(triangles > num_vertices):
+    if np.any(triangles >= num_vertices):
         raise ReadError("The mesh references nonexistent vertices")
 
     return Mesh(vertices, [CellBlock("triangle", triangles)])
-- 
2.43.0


From f7e7948baf8c824d6a77c76ae189d974d6d6de29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:49 +0000
Subject: [PATCH 023/160] fix: PLY binary reader handles faces with a single
 vertex

---
 src/meshio/ply/_ply.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/ply/_ply.py b/src/meshio/ply/_ply.py
index 8d1e64b..8fe8623 100644
--- a/src/meshio/ply/_ply.py
+++ b/src/meshio/ply/_ply.py
@@ -375,7 +375,7 @@ def _read_binary_list(buffer, count_dtype, data_dtype, num_cells, endianness):
         block_buffer = buffer[byte_starts_ends[start] : byte_starts_ends[end]]
         cells_per_row = (row_lengths[start] - count_itemsize) // data_itemsize
         block_dtype = np.dtype(
-            [("count", count_dtype), ("data", data_dtype * cells_per_row)]
+            [("count", count_dtype), ("data", data_dtype, (cells_per_row,))]
         )
         cells = np.frombuffer(block_buffer, dtype=block_dtype)["data"]
 
-- 
2.43.0


From da190b9a08547e94cd7c724b3c484c734d3e4580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:32 +0000
Subject: [PATCH 024/160] fix: Abaqus element sets over several blocks keep all
 their members

---
 src/meshio/abaqus/_abaqus.py | 67 +++++++++++++-----------------------
 1 file changed, 24 insertions(+), 43 deletions(-)

diff --git a/src/meshio/abaqus/_abaqus.py b/src/meshio/abaqus/_abaqus.py
index 0dd8877..8f19ab8 100644
--- a/src/meshio/abaqus/_abaqus.py
+++ b/src/meshio/abaqus/_abaqus.py
@@ -114,9 +114,7 @@ def read_buffer(f):
     cells = []
     cell_ids = []
     point_sets = {}
-    cell_sets = {}
-    cell_sets_element = {}  # Handle cell sets defined in ELEMENT
-    cell_sets_element_order = []  # Order of keys is not preserved in Python 3.5
+    cell_sets_raw = {}  # name -> {index of the cell block: list of cells}
     field_data = {}
     cell_data = {}
     point_data = {}
@@ -144,9 +142,9 @@ def read_buffer(f):
             )
             cells.append(CellBlock(cell_type, cells_data))
             cell_ids.append(ids)
-            if sets:
-                cell_sets_element.update(sets)
-                cell_sets_element_order += list(sets.keys())
+            for name, members in sets.items():
+                # One set can be named by several ELEMENT sections
+                cell_sets_raw.setdefault(name, {})[len(cells) - 1] = list(members)
         elif keyword == "NSET":
             params_map = get_param_map(line, required_keys=["NSET"])
             set_ids, _, line = _read_set(f, params_map)
@@ -158,26 +156,17 @@ def read_buffer(f):
             params_map = get_param_map(line, required_keys=["ELSET"])
             set_ids, set_names, line = _read_set(f, params_map)
             name = params_map["ELSET"]
-            cell_sets[name] = []
-            if set_ids.size:
-                for cell_ids_ in cell_ids:
-                    cell_sets_ = np.array(
-                        [
-                            cell_ids_[set_id]
-                            for set_id in set_ids
-                            if set_id in cell_ids_
-                        ],
-                        dtype="int32",
-                    )
-                    cell_sets[name].append(cell_sets_)
-            elif set_names:
-                for set_name in set_names:
-                    if set_name in cell_sets.keys():
-                        cell_sets[name].append(cell_sets[set_name])
-                    elif set_name in cell_sets_element.keys():
-                        cell_sets[name].append(cell_sets_element[set_name])
-                    else:
-                        raise ReadError(f"Unknown cell set '{set_name}'")
+            # Several ELSET sections with the same name add to the same set
+            members = cell_sets_raw.setdefault(name, {})
+            for ic, cell_ids_ in enumerate(cell_ids):
+                new = [cell_ids_[set_id] for set_id in set_ids if set_id in cell_ids_]
+                if new:
+                    members.setdefault(ic, []).extend(new)
+            for set_name in set_names:
+                if set_name not in cell_sets_raw:
+                    raise ReadError(f"Unknown cell set '{set_name}'")
+                for ic, new in cell_sets_raw[set_name].items():
+                    members.setdefault(ic, []).extend(list(new))
         elif keyword == "INCLUDE":
             # Splitting line to get external input file path (example: *INCLUDE,INPUT=wInclude_bulk.inp)
             ext_input_file = pathlib.Path(line.split("=")[-1].strip())
@@ -198,25 +187,20 @@ def read_buffer(f):
                     cell_data,
                     field_data,
                     point_sets,
-                    cell_sets,
                 )
+                cell_ids += [{} for _ in out.cells]
 
             line = f.readline()
         else:
             # There are just too many Abaqus keywords to explicitly skip them.
             line = f.readline()
 
-    # Parse cell sets defined in ELEMENT
-    for i, name in enumerate(cell_sets_element_order):
-        # Not sure whether this case would ever happen
-        if name in cell_sets.keys():
-            cell_sets[name][i] = cell_sets_element[name]
-        else:
-            cell_sets[name] = []
-            for ic in range(len(cells)):
-                cell_sets[name].append(
-                    cell_sets_element[name] if i == ic else np.array([], dtype="int32")
-                )
+    cell_sets = {
+        name: [
+            np.array(members.get(ic, []), dtype="int32") for ic in range(len(cells))
+        ]
+        for name, members in cell_sets_raw.items()
+    }
 
     return Mesh(
         points,
@@ -285,9 +269,7 @@ def _read_cells(f, params_map, point_ids):
     return cell_type, cells, cell_ids, cell_sets, line
 
 
-def merge(
-    mesh, points, cells, point_data, cell_data, field_data, point_sets, cell_sets
-):
+def merge(mesh, points, cells, point_data, cell_data, field_data, point_sets):
     """
     Merge Mesh object into existing containers for points, cells, sets, etc..
 
@@ -298,7 +280,6 @@ def merge(
     :param cell_data:
     :param field_data:
     :param point_sets:
-    :param cell_sets:
     :type mesh: Mesh
     """
     ext_points = np.array([p for p in mesh.points])
@@ -427,7 +408,7 @@ def write(
         offset = 0
         for ic in range(len(mesh.cells)):
             for k, v in mesh.cell_sets.items():
-                if len(v[ic]) > 0:
+                if v[ic] is not None and len(v[ic]) > 0:
                     els = [str(i + 1 + offset) for i in v[ic]]
                     f.write(f"*ELSET, ELSET={k}\n")
                     f.write(
-- 
2.43.0


From 0405cbcfa3d15f4d98790d321fecbd0da3bbfd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:32 +0000
Subject: [PATCH 025/160] fix: Abaqus C3D4H elements are tetrahedra

---
 src/meshio/abaqus/_abaqus.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/meshio/abaqus/_abaqus.py b/src/meshio/abaqus/_abaqus.py
index 8f19ab8..60acc3c 100644
--- a/src/meshio/abaqus/_abaqus.py
+++ b/src/meshio/abaqus/_abaqus.py
@@ -80,7 +80,7 @@ abaqus_to_meshio_type = {
     # "HEX27": "hexahedron27",
     #
     "C3D4": "tetra",
-    "C3D4H": "tetra4",
+    "C3D4H": "tetra",
     # "TETRA8": "tetra8",
     "C3D10": "tetra10",
     "C3D10H": "tetra10",
@@ -99,6 +99,7 @@ abaqus_to_meshio_type = {
     "CPE6": "triangle6",
 }
 meshio_to_abaqus_type = {v: k for k, v in abaqus_to_meshio_type.items()}
+meshio_to_abaqus_type["tetra"] = "C3D4"
 
 
 def read(filename):
-- 
2.43.0


From 4721a2fb680f0a0f3001f36b3a11984c2bd255e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:14 +0000
Subject: [PATCH 026/160] fix: Abaqus comments inside data blocks do not end
 the block

---
 src/meshio/abaqus/_abaqus.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/meshio/abaqus/_abaqus.py b/src/meshio/abaqus/_abaqus.py
index 60acc3c..3ec94a1 100644
--- a/src/meshio/abaqus/_abaqus.py
+++ b/src/meshio/abaqus/_abaqus.py
@@ -220,6 +220,8 @@ def _read_nodes(f):
     counter = 0
     while True:
         line = f.readline()
+        if line.startswith("**"):  # comment
+            continue
         if not line or line.startswith("*"):
             break
         if line.strip() == "":
@@ -246,6 +248,8 @@ def _read_cells(f, params_map, point_ids):
     idx = []
     while True:
         line = f.readline()
+        if line.startswith("**"):  # comment
+            continue
         if not line or line.startswith("*"):
             break
         line = line.strip()
@@ -362,6 +366,8 @@ def _read_set(f, params_map):
     set_names = []
     while True:
         line = f.readline()
+        if line.startswith("**"):  # comment
+            continue
         if not line or line.startswith("*"):
             break
         if line.strip() == "":
-- 
2.43.0


From 2aa9f66fee91b85c4cd7486f712101765c9761f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:14 +0000
Subject: [PATCH 027/160] fix: Abaqus files with several NODE sections

---
 src/meshio/abaqus/_abaqus.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/meshio/abaqus/_abaqus.py b/src/meshio/abaqus/_abaqus.py
index 3ec94a1..cc4b65a 100644
--- a/src/meshio/abaqus/_abaqus.py
+++ b/src/meshio/abaqus/_abaqus.py
@@ -133,7 +133,12 @@ def read_buffer(f):
 
         keyword = line.partition(",")[0].strip().replace("*", "").upper()
         if keyword == "NODE":
-            points, point_ids, line = _read_nodes(f)
+            new_points, new_point_ids, line = _read_nodes(f)
+            # Several NODE sections make up one set of nodes
+            offset = len(points)
+            point_ids = {} if point_ids is None else point_ids
+            point_ids.update({k: v + offset for k, v in new_point_ids.items()})
+            points = np.concatenate([points, new_points]) if offset else new_points
         elif keyword == "ELEMENT":
             if point_ids is None:
                 raise ReadError("Expected NODE before ELEMENT")
-- 
2.43.0


From 31287587bf0c589d0d99e3deef63d91029f6ddd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:14 +0000
Subject: [PATCH 028/160] fix: Abaqus element types are not case-sensitive

---
 src/meshio/abaqus/_abaqus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/abaqus/_abaqus.py b/src/meshio/abaqus/_abaqus.py
index cc4b65a..9981ea1 100644
--- a/src/meshio/abaqus/_abaqus.py
+++ b/src/meshio/abaqus/_abaqus.py
@@ -242,7 +242,7 @@ def _read_nodes(f):
 
 
 def _read_cells(f, params_map, point_ids):
-    etype = params_map["TYPE"]
+    etype = params_map["TYPE"].upper()
     if etype not in abaqus_to_meshio_type.keys():
         raise ReadError(f"Element type not available: {etype}")
 
-- 
2.43.0


From 9f477dd82bd89ffaa7268d11b49b9ebad6fdf595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:14 +0000
Subject: [PATCH 029/160] fix: Nastran large-field reals with sign or large
 exponent

---
 src/meshio/nastran/_nastran.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/meshio/nastran/_nastran.py b/src/meshio/nastran/_nastran.py
index 0e1313c..dca8463 100644
--- a/src/meshio/nastran/_nastran.py
+++ b/src/meshio/nastran/_nastran.py
@@ -410,11 +410,12 @@ def _float_to_nastran_string(value, length=16):
         -0.1234 --> "-1.234E-1"
         3.1415926535897932 --> "3.14159265359E+0"
     """
-    out = np.format_float_scientific(value, exp_digits=1, precision=11).replace(
-        "e", "E"
-    )
-    assert len(out) <= 16
-    return out
+    # as many digits as fit in the field
+    for precision in range(11, 0, -1):
+        out = np.format_float_scientific(value, exp_digits=1, precision=precision)
+        if len(out) <= length:
+            break
+    return out.replace("e", "E")
     # The following is the manual float conversion. Keep it around for a while in case
     # we still need it.
 
-- 
2.43.0


From 60a51a1ecf134448a27242ecaee36bbfd8832f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:14 +0000
Subject: [PATCH 030/160] fix: Nastran small-field reals of any magnitude

---
 src/meshio/nastran/_nastran.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/meshio/nastran/_nastran.py b/src/meshio/nastran/_nastran.py
index dca8463..dfe2cc4 100644
--- a/src/meshio/nastran/_nastran.py
+++ b/src/meshio/nastran/_nastran.py
@@ -385,7 +385,17 @@ def write(filename, mesh, point_format="fixed-large", cell_format="fixed-small")
 
 
 def _float_rstrip(x, n=8):
-    return f"{x:f}".rstrip("0")[:n]
+    out = f"{x:f}".rstrip("0")[:n]
+    if "." in out and (abs(x) >= 1.0e-2 or x == 0.0):
+        return out
+    # Too large or too small for fixed-point notation: as many digits as fit in
+    # exponential notation, 1.2346+9
+    for precision in range(n - 4, -1, -1):
+        mantissa, exponent = f"{x:#.{precision}e}".split("e")
+        out = f"{mantissa}{int(exponent):+d}"
+        if len(out) <= n:
+            break
+    return out
 
 
 def _float_to_nastran_string(value, length=16):
-- 
2.43.0


From 553a2744910fbdb0d86ef4bf8285a2a17370e255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:50 +0000
Subject: [PATCH 031/160] fix: Nastran cells in free and large-field format,
 standard keywords

---
 src/meshio/nastran/_nastran.py | 52 +++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/src/meshio/nastran/_nastran.py b/src/meshio/nastran/_nastran.py
index dfe2cc4..25feec5 100644
--- a/src/meshio/nastran/_nastran.py
+++ b/src/meshio/nastran/_nastran.py
@@ -125,7 +125,7 @@ def read_buffer(f):
         # read line and merge with all continuation lines (starting with `+` or
         # `*` or automatic continuation lines in fixed format)
         chunks = []
-        c, _ = _chunk_line(next_line)
+        c, is_free = _chunk_line(next_line)
         chunks.append(c)
         while True:
             next_line = f.readline()
@@ -171,7 +171,7 @@ def read_buffer(f):
 
         # merge chunks according to large field format
         # large field format: 8 + 16 + 16 + 16 + 16 + 8
-        if chunks[0][0].startswith("GRID*"):
+        if not is_free and chunks[0][0].rstrip().endswith("*"):
             new_chunks = []
             for c in chunks:
                 d = [c[0]]
@@ -212,10 +212,10 @@ def read_buffer(f):
         # strip chunks
         chunks = [chunk.strip() for chunk in chunks]
 
-        keyword = chunks[0]
+        keyword = chunks[0].rstrip("*")
 
         # Points
-        if keyword in ["GRID", "GRID*"]:
+        if keyword == "GRID":
             point_id = int(chunks[1])
             pref = chunks[2].strip()
             if len(pref) > 0:
@@ -308,15 +308,16 @@ def write(filename, mesh, point_format="fixed-large", cell_format="fixed-small")
 
     if cell_format == "free":
         int_fmt, cell_info_fmt = "{:d}", "{:s},{:d},{:s},"
-        sjoin = ","
+        sjoin, cchar = ",", "+"
+        nipl1, nipl2 = 6, 8
     elif cell_format == "fixed-small":
         int_fmt, cell_info_fmt = "{:<8d}", "{:<8s}{:<8d}{:<8s}"
         sjoin, cchar = "", "+"
-        nipl1, nipl2 = 6, 14
+        nipl1, nipl2 = 6, 8
     elif cell_format == "fixed-large":
         int_fmt, cell_info_fmt = "{:<16d}", "{:<8s}{:<16d}{:<16s}"
         sjoin, cchar = "", "*"
-        nipl1, nipl2 = 2, 6
+        nipl1, nipl2 = 2, 4
     else:
         raise RuntimeError(f'unknown "{format}" format')
 
@@ -348,8 +349,10 @@ def write(filename, mesh, point_format="fixed-large", cell_format="fixed-small")
             cell_type = cell_block.type
             cells = cell_block.data
             nastran_type = meshio_to_nastran_type[cell_type]
+            # second-order cells have the keyword of the first-order ones
+            keyword = nastran_type.rstrip("_")
             if cell_format.endswith("-large"):
-                nastran_type += "*"
+                keyword += "*"
             if cell_refs is not None:
                 cell_refs_t = cell_refs[ict]
             else:
@@ -358,28 +361,25 @@ def write(filename, mesh, point_format="fixed-large", cell_format="fixed-small")
                 if cell_refs is not None:
                     cell_ref = str(int(cell_refs_t[ic]))
                 cell_id += 1
-                cell_info = cell_info_fmt.format(nastran_type, cell_id, cell_ref)
+                cell_info = cell_info_fmt.format(keyword, cell_id, cell_ref)
                 cell1 = cell + 1
                 cell1 = _convert_to_nastran_ordering(cell1, nastran_type)
-                conn = sjoin.join(int_fmt.format(nid) for nid in cell1[:nipl1])
-
-                if len(cell1) > nipl1:
+                line = cell_info + sjoin.join(
+                    int_fmt.format(nid) for nid in cell1[:nipl1]
+                )
+                # continuation lines
+                for k, start in enumerate(range(nipl1, len(cell1), nipl2)):
+                    conn = sjoin.join(
+                        int_fmt.format(nid) for nid in cell1[start : start + nipl2]
+                    )
                     if cell_format == "free":
-                        cflag1 = cflag3 = ""
-                        cflag2 = cflag4 = "+,"
-                    else:
-                        cflag1 = cflag2 = f"{cchar}1{cell_id:<6x}"
-                        cflag3 = cflag4 = f"{cchar}2{cell_id:<6x}"
-                    f.write(cell_info + conn + cflag1 + "\n")
-                    conn = sjoin.join(int_fmt.format(nid) for nid in cell1[nipl1:nipl2])
-                    if len(cell1) > nipl2:
-                        f.write(cflag2 + conn + cflag3 + "\n")
-                        conn = sjoin.join(int_fmt.format(nid) for nid in cell1[nipl2:])
-                        f.write(cflag4 + conn + "\n")
+                        f.write(line + "\n")
+                        line = f"{cchar}," + conn
                     else:
-                        f.write(cflag2 + conn + "\n")
-                else:
-                    f.write(cell_info + conn + "\n")
+                        cflag = f"{cchar}{k + 1}{cell_id:<6x}"
+                        f.write(line + cflag + "\n")
+                        line = cflag + conn
+                f.write(line + "\n")
 
         f.write("ENDDATA\n")
 
-- 
2.43.0


From 5685e463d1689c068aad7a223f54e5a041a3c7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:50 +0000
Subject: [PATCH 032/160] fix: Nastran references stay aligned when some are
 blank

---
 src/meshio/nastran/_nastran.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/meshio/nastran/_nastran.py b/src/meshio/nastran/_nastran.py
index 25feec5..ac16030 100644
--- a/src/meshio/nastran/_nastran.py
+++ b/src/meshio/nastran/_nastran.py
@@ -101,13 +101,11 @@ def read_buffer(f):
         if len(cells) > 0 and cells[-1][0] == cell_type:
             cells[-1][1].append(cell)
             cells_id[-1].append(cell_id)
-            if cell_ref is not None:
-                cell_refs[-1].append(cell_ref)
+            cell_refs[-1].append(cell_ref)
         else:
             cells.append((cell_type, [cell]))
             cells_id.append([cell_id])
-            if cell_ref is not None:
-                cell_refs.append([cell_ref])
+            cell_refs.append([cell_ref])
 
     while True:
         next_line = f.readline()
@@ -218,8 +216,7 @@ def read_buffer(f):
         if keyword == "GRID":
             point_id = int(chunks[1])
             pref = chunks[2].strip()
-            if len(pref) > 0:
-                point_refs.append(int(pref))
+            point_refs.append(int(pref) if len(pref) > 0 else None)
             points_id.append(point_id)
             points.append([_nastran_string_to_float(i) for i in chunks[3:6]])
 
@@ -266,10 +263,13 @@ def read_buffer(f):
     mesh = Mesh(points, cells)
     mesh.points_id = points_id
     mesh.cells_id = cells_id
-    if len(point_refs) > 0:
-        mesh.point_data["nastran:ref"] = np.array(point_refs)
-    if len(cell_refs) > 0:
-        mesh.cell_data["nastran:ref"] = [np.array(i) for i in cell_refs]
+    # blank fields count as 0 if there are others
+    if any(ref is not None for ref in point_refs):
+        mesh.point_data["nastran:ref"] = np.array([ref or 0 for ref in point_refs])
+    if any(ref is not None for refs in cell_refs for ref in refs):
+        mesh.cell_data["nastran:ref"] = [
+            np.array([ref or 0 for ref in refs]) for refs in cell_refs
+        ]
     return mesh
 
 
-- 
2.43.0


From 9dd88ca67058d049c86e5d5abfb60b7c7852923d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:50 +0000
Subject: [PATCH 033/160] fix: Nastran reader stops at the end of a file
 without bulk data

---
 src/meshio/nastran/_nastran.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/meshio/nastran/_nastran.py b/src/meshio/nastran/_nastran.py
index ac16030..fe7baac 100644
--- a/src/meshio/nastran/_nastran.py
+++ b/src/meshio/nastran/_nastran.py
@@ -109,6 +109,8 @@ def read_buffer(f):
 
     while True:
         next_line = f.readline()
+        if not next_line:
+            raise ReadError("Premature EOF")
         # Blank lines or comments
         if len(next_line) < 4 or next_line.startswith(("$", "//", "#")):
             continue
-- 
2.43.0


From 2f947f343f0684d6ca7879ab279c237af79453bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:50 +0000
Subject: [PATCH 034/160] fix: PERMAS reader stops at the end of the file

---
 src/meshio/permas/_permas.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/meshio/permas/_permas.py b/src/meshio/permas/_permas.py
index dda02a3..181111a 100644
--- a/src/meshio/permas/_permas.py
+++ b/src/meshio/permas/_permas.py
@@ -121,7 +121,7 @@ def _read_nodes(f):
         line = f.readline()
         if line.startswith("!"):
             break
-        if line.startswith("$"):
+        if line.startswith("$") or line == "":
             break
         entries = line.strip().split(" ")
         gid, x = entries[0], entries[1:]
@@ -203,7 +203,7 @@ def read_set(f, params_map):
     while True:
         last_pos = f.tell()
         line = f.readline()
-        if line.startswith("$"):
+        if line.startswith("$") or line == "":
             break
         set_ids += [int(k) for k in line.strip().strip(" ").split(" ")]
     f.seek(last_pos)
-- 
2.43.0


From 434d2d1b1c722522e4102c4ea7f1bea67060245a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:43 +0000
Subject: [PATCH 035/160] fix: PERMAS reader undoes the node ordering of
 second-order cells

---
 src/meshio/permas/_permas.py | 57 ++++++++++++------------------------
 1 file changed, 19 insertions(+), 38 deletions(-)

diff --git a/src/meshio/permas/_permas.py b/src/meshio/permas/_permas.py
index 181111a..7a0ffbf 100644
--- a/src/meshio/permas/_permas.py
+++ b/src/meshio/permas/_permas.py
@@ -56,6 +56,14 @@ permas_to_meshio_type = {
 }
 meshio_to_permas_type = {v: k for k, v in permas_to_meshio_type.items()}
 
+# local node numbering
+meshio_to_permas_order = {
+    "triangle6": [0, 3, 1, 4, 2, 5],
+    "tetra10": [0, 4, 1, 5, 2, 6, 7, 8, 9, 3],
+    "quad9": [0, 4, 1, 7, 8, 5, 3, 6, 2],
+    "wedge15": [0, 6, 1, 7, 2, 8, 9, 10, 11, 3, 12, 4, 13, 5, 14],
+}
+
 
 def read(filename):
     """Reads a PERMAS dat file."""
@@ -155,7 +163,10 @@ def _read_cells(f, line0, point_gids):
             cells.append(idx)
             idx = []
     f.seek(last_pos)
-    return cell_type, np.array(cells)
+    cells = np.array(cells)
+    if cell_type in meshio_to_permas_order:
+        cells = cells[:, np.argsort(meshio_to_permas_order[cell_type])]
+    return cell_type, cells
 
 
 def get_param_map(word, required_keys=None):
@@ -239,47 +250,17 @@ def write(filename, mesh):
         for k, x in enumerate(points):
             f.write(f"{k + 1} {x[0]} {x[1]} {x[2]}\n")
         eid = 0
-        tria6_order = [0, 3, 1, 4, 2, 5]
-        tet10_order = [0, 4, 1, 5, 2, 6, 7, 8, 9, 3]
-        quad9_order = [0, 4, 1, 7, 8, 5, 3, 6, 2]
-        wedge15_order = [0, 6, 1, 7, 2, 8, 9, 10, 11, 3, 12, 4, 13, 5, 14]
         for cell_block in mesh.cells:
             node_idcs = cell_block.data
             f.write("!\n")
             f.write("$ELEMENT TYPE=" + meshio_to_permas_type[cell_block.type] + "\n")
-            if cell_block.type == "tetra10":
-                for row in node_idcs:
-                    eid += 1
-                    mylist = row.tolist()
-                    mylist = [mylist[i] for i in tet10_order]
-                    nids_strs = (str(nid + 1) for nid in mylist)
-                    f.write(str(eid) + " " + " ".join(nids_strs) + "\n")
-            elif cell_block.type == "triangle6":
-                for row in node_idcs:
-                    eid += 1
-                    mylist = row.tolist()
-                    mylist = [mylist[i] for i in tria6_order]
-                    nids_strs = (str(nid + 1) for nid in mylist)
-                    f.write(str(eid) + " " + " ".join(nids_strs) + "\n")
-            elif cell_block.type == "quad9":
-                for row in node_idcs:
-                    eid += 1
-                    mylist = row.tolist()
-                    mylist = [mylist[i] for i in quad9_order]
-                    nids_strs = (str(nid + 1) for nid in mylist)
-                    f.write(str(eid) + " " + " ".join(nids_strs) + "\n")
-            elif cell_block.type == "wedge15":
-                for row in node_idcs:
-                    eid += 1
-                    mylist = row.tolist()
-                    mylist = [mylist[i] for i in wedge15_order]
-                    nids_strs = (str(nid + 1) for nid in mylist)
-                    f.write(str(eid) + " " + " ".join(nids_strs) + "\n")
-            else:
-                for row in node_idcs:
-                    eid += 1
-                    nids_strs = (str(nid + 1) for nid in row.tolist())
-                    f.write(str(eid) + " " + " ".join(nids_strs) + "\n")
+            order = meshio_to_permas_order.get(cell_block.type)
+            if order is not None:
+                node_idcs = node_idcs[:, order]
+            for row in node_idcs:
+                eid += 1
+                nids_strs = (str(nid + 1) for nid in row.tolist())
+                f.write(str(eid) + " " + " ".join(nids_strs) + "\n")
         f.write("$END STRUCTURE\n")
         f.write("$EXIT COMPONENT\n")
         f.write("$FIN\n")
-- 
2.43.0


From 4b567eb30741f9e7ff13d5adeb504ba4628a358d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:43 +0000
Subject: [PATCH 036/160] fix: Ansys binary points are written in double
 precision

---
 src/meshio/ansys/_ansys.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/meshio/ansys/_ansys.py b/src/meshio/ansys/_ansys.py
index 364616a..6c9011a 100644
--- a/src/meshio/ansys/_ansys.py
+++ b/src/meshio/ansys/_ansys.py
@@ -413,7 +413,8 @@ def write(filename, mesh, binary=True):
             f"({key} (1 {first_node_index:x} {num_points:x} 1 {dim:x})(\n".encode()
         )
         if binary:
-            mesh.points.tofile(fh)
+            # key 3010 means double precision
+            mesh.points.astype(np.float64).tofile(fh)
             fh.write(b"\n)")
             fh.write(b"End of Binary Section 3010)\n")
         else:
-- 
2.43.0


From e80bd8cb4d35738637a2bcf5be413c202646115c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:44 +0000
Subject: [PATCH 037/160] fix: Ansys binary cells of any integer type

---
 src/meshio/ansys/_ansys.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/meshio/ansys/_ansys.py b/src/meshio/ansys/_ansys.py
index 6c9011a..fa19eda 100644
--- a/src/meshio/ansys/_ansys.py
+++ b/src/meshio/ansys/_ansys.py
@@ -441,6 +441,8 @@ def write(filename, mesh, binary=True):
         for cell_block in mesh.cells:
             cell_type = cell_block.type
             values = cell_block.data
+            if binary and values.dtype not in binary_dtypes:
+                values = values.astype(np.int64)
             key = binary_dtypes[values.dtype] if binary else "12"
             last_index = first_index + len(values) - 1
             try:
-- 
2.43.0


From 9f157db3e75982888a7f520d02ca7ba03560583a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:44 +0000
Subject: [PATCH 038/160] fix: Ansys reader stops at the end of a truncated
 file

---
 src/meshio/ansys/_ansys.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/meshio/ansys/_ansys.py b/src/meshio/ansys/_ansys.py
index fa19eda..a49bc63 100644
--- a/src/meshio/ansys/_ansys.py
+++ b/src/meshio/ansys/_ansys.py
@@ -20,11 +20,15 @@ def _skip_to(f, char):
     c = None
     while c != char:
         c = f.read(1).decode()
+        if c == "":
+            raise ReadError("Unexpected end of file")
 
 
 def _skip_close(f, num_open_brackets):
     while num_open_brackets > 0:
         char = f.read(1).decode()
+        if char == "":
+            raise ReadError("Unexpected end of file")
         if char == "(":
             num_open_brackets += 1
         elif char == ")":
@@ -60,8 +64,8 @@ def _read_points(f, line, first_point_index_overall, last_point_index):
     # Skip ahead to the byte that opens the data block (might
     # be the current line already).
     last_char = line.strip()[-1]
-    while last_char != "(":
-        last_char = f.read(1).decode()
+    if last_char != "(":
+        _skip_to(f, "(")
 
     if out.group(1) == "":
         # ASCII data
@@ -71,6 +75,8 @@ def _read_points(f, line, first_point_index_overall, last_point_index):
             line = ""
             while line.strip() == "":
                 line = f.readline().decode()
+                if not line:
+                    raise ReadError("Unexpected end of file")
             dat = line.split()
             if len(dat) != dim:
                 raise ReadError()
@@ -230,6 +236,8 @@ def _read_faces(f, line):
                 line = ""
                 while line.strip() == "":
                     line = f.readline().decode()
+                    if not line:
+                        raise ReadError("Unexpected end of file")
                 dat = line.split()
                 type_index = int(dat[0], 16)
                 if type_index == 0:
-- 
2.43.0


From ac32660399570ce6b208e905b2545f4806698001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:44 +0000
Subject: [PATCH 039/160] fix: MDPA quadratic lines in three dimensions

---
 src/meshio/mdpa/_mdpa.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/meshio/mdpa/_mdpa.py b/src/meshio/mdpa/_mdpa.py
index afa39ec..604d698 100644
--- a/src/meshio/mdpa/_mdpa.py
+++ b/src/meshio/mdpa/_mdpa.py
@@ -32,6 +32,7 @@ _mdpa_to_meshio_type = {
     "Hexahedra3D8": "hexahedron",
     "Prism3D6": "wedge",
     "Line2D3": "line3",
+    "Line3D3": "line3",
     "Triangle2D6": "triangle6",
     "Triangle3D6": "triangle6",
     "Quadrilateral2D9": "quad9",
@@ -74,6 +75,7 @@ local_dimension_types = {
     "Hexahedra3D8": 3,
     "Prism3D6": 3,
     "Line2D3": 1,
+    "Line3D3": 1,
     "Triangle2D6": 2,
     "Triangle3D6": 2,
     "Quadrilateral2D9": 2,
-- 
2.43.0


From 5478c2c206c18a6d1a2becaeb00d97c21119372e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:44 +0000
Subject: [PATCH 040/160] fix: MDPA reader stops at the end of a truncated file

---
 src/meshio/mdpa/_mdpa.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/meshio/mdpa/_mdpa.py b/src/meshio/mdpa/_mdpa.py
index 604d698..6aa8500 100644
--- a/src/meshio/mdpa/_mdpa.py
+++ b/src/meshio/mdpa/_mdpa.py
@@ -111,6 +111,8 @@ def _read_nodes(f, is_ascii, data_size):
     num_nodes = 0
     while True:
         line = f.readline().decode()
+        if not line:
+            raise ReadError("Unexpected end of file")
         if "End Nodes" in line:
             break
         num_nodes += 1
-- 
2.43.0


From f6fe0fb63d7d1ba65dd2a0d401b0f5ad07eddd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:54 +0000
Subject: [PATCH 041/160] fix: HMF reader keeps all blocks in their order

---
 src/meshio/hmf/_hmf.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/meshio/hmf/_hmf.py b/src/meshio/hmf/_hmf.py
index b4af72f..11aa288 100644
--- a/src/meshio/hmf/_hmf.py
+++ b/src/meshio/hmf/_hmf.py
@@ -19,14 +19,19 @@ def read(filename):
         grid = domain["grid"]
 
         points = None
-        cells = {}
+        cells = []
         point_data = {}
         cell_data_raw = {}
 
+        # HDF5 lists Topology10 before Topology2
+        topologies = [key for key in grid if key[:8] == "Topology"]
+        for key in sorted(topologies, key=lambda key: int(key[8:])):
+            cell_type = grid[key].attrs["TopologyType"]
+            cells.append((xdmf_to_meshio_type[cell_type], grid[key][()]))
+
         for key, value in grid.items():
-            if key[:8] == "Topology":
-                cell_type = value.attrs["TopologyType"]
-                cells[xdmf_to_meshio_type[cell_type]] = value[()]
+            if key in topologies:
+                continue
 
             elif key == "Geometry":
                 # TODO is GeometryType really needed?
-- 
2.43.0


From b6de67bea665e06aac99de30fa02e4cdfbb24fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:54 +0000
Subject: [PATCH 042/160] fix: H5M writer does not fail on meshes with cell
 data

---
 src/meshio/h5m/_h5m.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/meshio/h5m/_h5m.py b/src/meshio/h5m/_h5m.py
index 62a790a..c6d4dad 100644
--- a/src/meshio/h5m/_h5m.py
+++ b/src/meshio/h5m/_h5m.py
@@ -233,7 +233,7 @@ def write(filename, mesh, add_global_ids=True, compression="gzip", compression_o
         key = cell_block.type
         data = cell_block.data
         if key not in meshio_to_h5m_type:
-            warn("Unsupported H5M element type '%s'. Skipping.", key)
+            warn(f"Unsupported H5M element type '{key}'. Skipping.")
             continue
         this_type = meshio_to_h5m_type[key]
         elem_group = elements.create_group(this_type["name"])
@@ -248,17 +248,9 @@ def write(filename, mesh, add_global_ids=True, compression="gzip", compression_o
         conn.attrs.create("start_id", global_id)
         global_id += len(data)
 
-    # add cell data
-    for cell_type, cd in mesh.cell_data.items():
-        if cd:
-            tags = elem_group.create_group("tags")
-            for key, value in cd.items():
-                tags.create_dataset(
-                    key,
-                    data=value,
-                    compression=compression,
-                    compression_opts=compression_opts,
-                )
+    # TODO bring cell data back
+    if mesh.cell_data:
+        warn("meshio cannot write cell data to H5M. Skipping.")
 
     # add empty set -- MOAB wants this
     sets = tstt.create_group("sets")
-- 
2.43.0


From 8266300365fa8e4bd658c8bf49a47d62b910347c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:54 +0000
Subject: [PATCH 043/160] fix: Exodus TETRA4 and TET4 elements are tetrahedra

---
 src/meshio/exodus/_exodus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/meshio/exodus/_exodus.py b/src/meshio/exodus/_exodus.py
index 60fce58..004a222 100644
--- a/src/meshio/exodus/_exodus.py
+++ b/src/meshio/exodus/_exodus.py
@@ -53,9 +53,9 @@ exodus_to_meshio_type = {
     "HEX20": "hexahedron20",
     "HEX27": "hexahedron27",
     #
+    "TETRA4": "tetra",
+    "TET4": "tetra",
     "TETRA": "tetra",
-    "TETRA4": "tetra4",
-    "TET4": "tetra4",
     "TETRA8": "tetra8",
     "TETRA10": "tetra10",
     "TETRA14": "tetra14",
-- 
2.43.0


From ab914b89b0748265eb53e52e4c2744d20334a577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:04 +0000
Subject: [PATCH 044/160] fix: HMF reader splits cell data by the number of
 cells per block

---
 src/meshio/hmf/_hmf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/meshio/hmf/_hmf.py b/src/meshio/hmf/_hmf.py
index 11aa288..f02c99e 100644
--- a/src/meshio/hmf/_hmf.py
+++ b/src/meshio/hmf/_hmf.py
@@ -27,7 +27,9 @@ def read(filename):
         topologies = [key for key in grid if key[:8] == "Topology"]
         for key in sorted(topologies, key=lambda key: int(key[8:])):
             cell_type = grid[key].attrs["TopologyType"]
-            cells.append((xdmf_to_meshio_type[cell_type], grid[key][()]))
+            cells.append(
+                meshio.CellBlock(xdmf_to_meshio_type[cell_type], grid[key][()])
+            )
 
         for key, value in grid.items():
             if key in topologies:
-- 
2.43.0


From daebed807fee8604f54bd218d6aa2d0f1b570fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:01 +0000
Subject: [PATCH 045/160] fix: AVS-UCD reader splits cell data over several
 blocks

---
 src/meshio/avsucd/_avsucd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/avsucd/_avsucd.py b/src/meshio/avsucd/_avsucd.py
index 5fdbfe6..6b76103 100644
--- a/src/meshio/avsucd/_avsucd.py
+++ b/src/meshio/avsucd/_avsucd.py
@@ -69,7 +69,7 @@ def read_buffer(f):
     # Read cell data
     if num_cell_data:
         cdata = _read_data(f, num_cells, cell_ids)
-        sections = np.cumsum([len(c[1]) for c in cells[:-1]])
+        sections = np.cumsum([len(c) for c in cells[:-1]])
         for k, v in cdata.items():
             cell_data[k] = np.split(v, sections)
 
-- 
2.43.0


From ecf03e65060062cf8823feb8149d1cc31e2f73ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:02 +0000
Subject: [PATCH 046/160] fix: AVS-UCD files with a single node or none

---
 src/meshio/avsucd/_avsucd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/meshio/avsucd/_avsucd.py b/src/meshio/avsucd/_avsucd.py
index 6b76103..494ec78 100644
--- a/src/meshio/avsucd/_avsucd.py
+++ b/src/meshio/avsucd/_avsucd.py
@@ -78,9 +78,9 @@ def read_buffer(f):
 
 def _read_nodes(f, num_nodes):
     if num_nodes > 0:
-        data = np.genfromtxt(f, max_rows=num_nodes)
+        data = np.genfromtxt(f, max_rows=num_nodes).reshape(num_nodes, -1)
     else:
-        data = np.empty((0, 3))
+        data = np.empty((0, 4))
     points_ids = {int(pid): i for i, pid in enumerate(data[:, 0])}
     return points_ids, data[:, 1:]
 
-- 
2.43.0


From 06af31a7ce7aa8ddb13279ea002d423be6ca2b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:02 +0000
Subject: [PATCH 047/160] fix: AVS-UCD writer leaves the points of the mesh
 alone

---
 src/meshio/avsucd/_avsucd.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/meshio/avsucd/_avsucd.py b/src/meshio/avsucd/_avsucd.py
index 494ec78..22be3e2 100644
--- a/src/meshio/avsucd/_avsucd.py
+++ b/src/meshio/avsucd/_avsucd.py
@@ -145,12 +145,13 @@ def _read_data(f, num_entities, entity_ids):
 
 
 def write(filename, mesh):
-    if len(mesh.points.shape) > 1 and mesh.points.shape[1] == 2:
+    points = mesh.points
+    if len(points.shape) > 1 and points.shape[1] == 2:
         warn(
             "AVS-UCD requires 3D points, but 2D points given. "
             "Appending 0 third component."
         )
-        mesh.points = np.column_stack([mesh.points, np.zeros_like(mesh.points[:, 0])])
+        points = np.column_stack([points, np.zeros_like(points[:, 0])])
 
     with open_file(filename, "w") as f:
         # Write meshio version
@@ -187,7 +188,7 @@ def write(filename, mesh):
         f.write(f"{num_nodes} {num_cells} {num_node_data_sum} {num_cell_data_sum} 0\n")
 
         # Write nodes
-        _write_nodes(f, mesh.points)
+        _write_nodes(f, points)
 
         # Write cells
         _write_cells(f, mesh.cells, material)
-- 
2.43.0


From 9c456acfd0da70e217d577e343a23c85fc08c19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:02 +0000
Subject: [PATCH 048/160] fix: SU2 writer writes boundary markers

---
 src/meshio/su2/_su2.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/meshio/su2/_su2.py b/src/meshio/su2/_su2.py
index b925171..b59c504 100644
--- a/src/meshio/su2/_su2.py
+++ b/src/meshio/su2/_su2.py
@@ -338,7 +338,9 @@ def write(filename, mesh):
             f.write(f"MARKER_TAG= {tag}\n".encode())
             f.write(f"MARKER_ELEMS= {count}\n".encode())
 
-            for index, (cell_type, data) in enumerate(mesh.cells):
+            for index, cell_block in enumerate(mesh.cells):
+                cell_type = cell_block.type
+                data = cell_block.data
 
                 if cell_type not in types:
                     continue
-- 
2.43.0


From a0c99751f4ba1ee8394907c7c5780e264b6d2788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:02 +0000
Subject: [PATCH 049/160] fix: SU2 reader accepts empty element sections

---
 src/meshio/su2/_su2.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/meshio/su2/_su2.py b/src/meshio/su2/_su2.py
index b59c504..9221534 100644
--- a/src/meshio/su2/_su2.py
+++ b/src/meshio/su2/_su2.py
@@ -116,6 +116,8 @@ def read_buffer(f):
             # translate_cells function from vtk reader
 
             num_elems = int(rest_of_line)
+            if num_elems == 0:
+                continue
             gen = islice(f, num_elems)
 
             # some files has an extra int column while other not
-- 
2.43.0


From 7cd303e66819f56c77eee39e5de1ab54447f531b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:02 +0000
Subject: [PATCH 050/160] fix: SU2 writer names the cell type that it skips

---
 src/meshio/su2/_su2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/su2/_su2.py b/src/meshio/su2/_su2.py
index 9221534..067c24f 100644
--- a/src/meshio/su2/_su2.py
+++ b/src/meshio/su2/_su2.py
@@ -264,7 +264,7 @@ def write(filename, mesh):
             if cell_block.type not in meshio_to_su2_type:
                 warn(
                     ".su2 does not support tags elements of type {}.\n"
-                    "Skipping ...".format(type)
+                    "Skipping ...".format(cell_block.type)
                 )
 
         # Write `internal` cells
-- 
2.43.0


From 8f72217dc8f845a20f9cdbcdaa52e5f2cd14c05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:02 +0000
Subject: [PATCH 051/160] fix: UGRID writer picks the labels of the boundary
 faces

---
 src/meshio/ugrid/_ugrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/ugrid/_ugrid.py b/src/meshio/ugrid/_ugrid.py
index 6fa57c0..8a6c560 100644
--- a/src/meshio/ugrid/_ugrid.py
+++ b/src/meshio/ugrid/_ugrid.py
@@ -253,7 +253,7 @@ def _write_buffer(f, file_type, mesh):
                 f'Picking {labels_key}, skipping {", ".join(other)}.'
             )
         labels = (
-            mesh.cell_data[labels_key]
+            mesh.cell_data[labels_key][ugrid_meshio_id[key]]
             if labels_key
             else np.ones(ugrid_counts[key], dtype=int)
         )
-- 
2.43.0


From 803c5fe2541ba1b4f5fdd029d6fe4b875446b5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:02 +0000
Subject: [PATCH 052/160] fix: UGRID ASCII reader keeps double precision

---
 src/meshio/ugrid/_ugrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/ugrid/_ugrid.py b/src/meshio/ugrid/_ugrid.py
index 8a6c560..b04e349 100644
--- a/src/meshio/ugrid/_ugrid.py
+++ b/src/meshio/ugrid/_ugrid.py
@@ -23,7 +23,7 @@ from .._mesh import CellBlock, Mesh
 # 64-bit versions described here
 # https://www.simcenter.msstate.edu/software/documentation/ug_io/ugc_l_file_formats.html
 file_types = {
-    "ascii": {"type": "ascii", "float_type": "f", "int_type": "i"},
+    "ascii": {"type": "ascii", "float_type": "f8", "int_type": "i8"},
     "b8l": {"type": "C", "float_type": ">f8", "int_type": ">i8"},
     "b8": {"type": "C", "float_type": ">f8", "int_type": ">i4"},
     "b4": {"type": "C", "float_type": ">f4", "int_type": ">i4"},
-- 
2.43.0


From 92a4633656c895785d7985e80a72b4985dde948f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:02 +0000
Subject: [PATCH 053/160] fix: UGRID Fortran record lengths are those of the
 written records

---
 src/meshio/ugrid/_ugrid.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/meshio/ugrid/_ugrid.py b/src/meshio/ugrid/_ugrid.py
index b04e349..359f5c4 100644
--- a/src/meshio/ugrid/_ugrid.py
+++ b/src/meshio/ugrid/_ugrid.py
@@ -204,7 +204,7 @@ def _write_buffer(f, file_type, mesh):
     # it has to be before and after each record
     fortran_header = None
     if file_type["type"] == "F":
-        fortran_header = np.array([nitems.nbytes])
+        fortran_header = np.array([nitems.size * np.dtype(itype).itemsize])
         _write_section(f, file_type, fortran_header, itype)
 
     _write_section(f, file_type, nitems, itype)
@@ -214,9 +214,10 @@ def _write_buffer(f, file_type, mesh):
         _write_section(f, file_type, fortran_header, itype)
 
         # start next record
-        fortran_header = mesh.points.nbytes
+        fortran_header = mesh.points.size * np.dtype(ftype).itemsize
         for cell_block in mesh.cells:
-            fortran_header += cell_block.data.nbytes
+            if cell_block.type in ugrid_counts:
+                fortran_header += cell_block.data.size * np.dtype(itype).itemsize
         # boundary tags
         if ugrid_counts["triangle"] > 0:
             fortran_header += ugrid_counts["triangle"] * np.dtype(itype).itemsize
-- 
2.43.0


From 559f64c0152f1743aa3c026e79356f99d8e29c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:02 +0000
Subject: [PATCH 054/160] fix: Tecplot reader stops at the end of a truncated
 file

---
 src/meshio/tecplot/_tecplot.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/meshio/tecplot/_tecplot.py b/src/meshio/tecplot/_tecplot.py
index 4acf2c3..1f25671 100644
--- a/src/meshio/tecplot/_tecplot.py
+++ b/src/meshio/tecplot/_tecplot.py
@@ -113,6 +113,15 @@ def readline(f):
     return line
 
 
+def _readline_or_fail(f):
+    line = f.readline()
+    while line.strip().startswith("#"):
+        line = f.readline()
+    if not line:
+        raise ReadError("Unexpected end of file")
+    return line
+
+
 def read_buffer(f):
     variables = None
     num_data = None
@@ -361,14 +370,14 @@ def _parse_fezone(zone, variables):
 def _read_zone_data(f, num_data, num_cells, zone_format):
     data, count = [], 0
     while count < num_data:
-        line = readline(f).split()
+        line = _readline_or_fail(f).split()
         if line:
             data += [[float(x) for x in line]]
             count += len(line) if zone_format == "FEBLOCK" else 1
 
     cells, count = [], 0
     while count < num_cells:
-        line = readline(f).split()
+        line = _readline_or_fail(f).split()
         if line:
             cells += [[[int(x) for x in line]]]
             count += 1
-- 
2.43.0


From 99118cc8bc7909a92cdf485e65efec19acbe3757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:02 +0000
Subject: [PATCH 055/160] fix: Netgen files with a single point

---
 src/meshio/netgen/_netgen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/netgen/_netgen.py b/src/meshio/netgen/_netgen.py
index cae1bd7..a9b933a 100644
--- a/src/meshio/netgen/_netgen.py
+++ b/src/meshio/netgen/_netgen.py
@@ -264,7 +264,7 @@ def read_buffer(f):
         elif line == "points":
             num_points = int(f.readline())
             if num_points > 0:
-                points = np.loadtxt(f, max_rows=num_points)
+                points = np.loadtxt(f, max_rows=num_points, ndmin=2)
                 if dimension != 3:
                     points = points[:, :dimension]
 
-- 
2.43.0


From e2474dad83ce88949a697a3a337a6df558cf4a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:02 +0000
Subject: [PATCH 056/160] fix: TetGen writer keeps all tetrahedra and their
 attributes

---
 src/meshio/tetgen/_tetgen.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/meshio/tetgen/_tetgen.py b/src/meshio/tetgen/_tetgen.py
index c869496..cca6cf2 100644
--- a/src/meshio/tetgen/_tetgen.py
+++ b/src/meshio/tetgen/_tetgen.py
@@ -156,13 +156,17 @@ def write(filename, mesh, float_fmt=".16e"):
         fh.write(f"# This file was created by meshio v{__version__}\n")
         if nattr > 0:
             fh.write("# attribute names: {}\n".format(", ".join(attr_keys)))
-        for id, c in enumerate(filter(lambda c: c.type == "tetra", mesh.cells)):
-            data = c.data
-            fh.write(f"{data.shape[0]} {4} {nattr}\n")
-            fmt = " ".join((5 + nattr) * ["{}"]) + "\n"
-            for k, tet in enumerate(data):
-                data = list(tet[:4]) + [mesh.cell_data[key][id][k] for key in attr_keys]
-                fh.write(fmt.format(k, *data))
+        num_tets = sum(len(c) for c in mesh.cells if c.type == "tetra")
+        fh.write(f"{num_tets} {4} {nattr}\n")
+        fmt = " ".join((5 + nattr) * ["{}"]) + "\n"
+        idx = 0
+        for block, c in enumerate(mesh.cells):
+            if c.type != "tetra":
+                continue
+            for k, tet in enumerate(c.data):
+                attrs = [mesh.cell_data[key][block][k] for key in attr_keys]
+                fh.write(fmt.format(idx, *tet[:4], *attrs))
+                idx += 1
 
 
 register_format("tetgen", [".ele", ".node"], read, {"tetgen": write})
-- 
2.43.0


From b109da13aed2406e37d53e35514d42e728592ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:02 +0000
Subject: [PATCH 057/160] fix: TetGen reader understands real-valued region
 attributes

---
 src/meshio/tetgen/_tetgen.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/meshio/tetgen/_tetgen.py b/src/meshio/tetgen/_tetgen.py
index cca6cf2..5a9b4d6 100644
--- a/src/meshio/tetgen/_tetgen.py
+++ b/src/meshio/tetgen/_tetgen.py
@@ -73,15 +73,19 @@ def read(filename):
         if num_points_per_tet != 4:
             raise ReadError()
         cells = np.fromfile(
-            f, dtype=int, count=(5 + num_attrs) * num_tets, sep=" "
+            f, dtype=float, count=(5 + num_attrs) * num_tets, sep=" "
         ).reshape(num_tets, 5 + num_attrs)
         # read cell (region) attributes, the first is "ref", the others are "ref2",
         # "ref3", ...
         for k in range(num_attrs):
             flag = "" if k == 0 else str(k + 1)
-            cell_data["tetgen:ref" + flag] = [cells[:, 5 + k]]
+            attr = cells[:, 5 + k]
+            # attributes may be any real number, but are integers most of the time
+            if np.all(attr == np.round(attr)):
+                attr = attr.astype(int)
+            cell_data["tetgen:ref" + flag] = [attr]
         # remove the leading index column and the attributes
-        cells = cells[:, 1:5]
+        cells = cells[:, 1:5].astype(int)
         cells -= node_index_base
 
     return Mesh(
-- 
2.43.0


From 90062b19e7664759daf4131b2fad85c51dc763d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:02 +0000
Subject: [PATCH 058/160] fix: DOLFIN writer keeps the cell data of all written
 blocks

---
 src/meshio/dolfin/_dolfin.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/meshio/dolfin/_dolfin.py b/src/meshio/dolfin/_dolfin.py
index e43dbd5..83f82a2 100644
--- a/src/meshio/dolfin/_dolfin.py
+++ b/src/meshio/dolfin/_dolfin.py
@@ -229,11 +229,13 @@ def write(filename, mesh):
     _write_mesh(filename, mesh.points, cell_type, mesh.cells)
 
     for name, lst in mesh.cell_data.items():
-        for data in lst:
-            fname = os.path.splitext(filename)[0]
-            cell_data_filename = f"{fname}_{name}.xml"
-            dim = 2 if mesh.points.shape[1] == 2 or all(mesh.points[:, 2] == 0) else 3
-            _write_cell_data(cell_data_filename, dim, np.array(data))
+        data = np.concatenate(
+            [data for c, data in zip(mesh.cells, lst) if c.type == cell_type]
+        )
+        fname = os.path.splitext(filename)[0]
+        cell_data_filename = f"{fname}_{name}.xml"
+        dim = 2 if mesh.points.shape[1] == 2 or all(mesh.points[:, 2] == 0) else 3
+        _write_cell_data(cell_data_filename, dim, data)
 
 
 register_format("dolfin-xml", [".xml"], read, {"dolfin-xml": write})
-- 
2.43.0


From 6b7f9d73a4a5e70c7c79fc1813bb8012e79a090b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:25 +0000
Subject: [PATCH 059/160] fix: FLAC3D cell sets count the cells of each block

---
 src/meshio/flac3d/_flac3d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/meshio/flac3d/_flac3d.py b/src/meshio/flac3d/_flac3d.py
index 45ea0d9..6256462 100644
--- a/src/meshio/flac3d/_flac3d.py
+++ b/src/meshio/flac3d/_flac3d.py
@@ -236,9 +236,10 @@ def read_buffer(f, binary):
     # cell_sets contains the indices into the global cell list. Since this is
     # split up into blocks, we need to split the cell_sets, too.
     bins = np.cumsum([len(cb[1]) for cb in cell_blocks])
+    starts = bins - [len(cb[1]) for cb in cell_blocks]
     for key, data in cell_sets.items():
         d = np.digitize(data, bins)
-        cell_sets[key] = [data[d == k] for k in range(len(cell_blocks))]
+        cell_sets[key] = [data[d == k] - starts[k] for k in range(len(cell_blocks))]
 
     # assert len(cell_ids) == sum(len(block) for _, block in cell_blocks)
 
-- 
2.43.0


From 1f54b4740e9f1ebd22df22f42e44a4a7fe9eb8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:25 +0000
Subject: [PATCH 060/160] fix: FLAC3D writer numbers set members correctly and
 leaves the sets alone

---
 src/meshio/flac3d/_flac3d.py | 73 +++++++++++-------------------------
 1 file changed, 21 insertions(+), 52 deletions(-)

diff --git a/src/meshio/flac3d/_flac3d.py b/src/meshio/flac3d/_flac3d.py
index 6256462..ec53389 100644
--- a/src/meshio/flac3d/_flac3d.py
+++ b/src/meshio/flac3d/_flac3d.py
@@ -353,6 +353,25 @@ def _update_cells(cells, cell, flag):
         cells.append((cell_type, [cell]))
 
 
+def _global_sets(mesh, flag):
+    """The (non-empty) sets of the zones or faces as 1-based indices into the list of
+    all zones or faces. meshio's sets contain the indices into each cell block.
+    """
+    out = {}
+    for key, cset in mesh.cell_sets.items():
+        members = []
+        offset = 1
+        for cell_block, block in zip(mesh.cells, cset):
+            if cell_block.type not in meshio_only[flag]:
+                continue
+            if block is not None:
+                members.append(np.asarray(block, dtype=int) + offset)
+            offset += len(cell_block)
+        if any(len(m) > 0 for m in members):
+            out[key] = np.concatenate(members)
+    return out
+
+
 def split_f_z(mesh):
     # FLAC3D makes a difference between ZONES (3D-cells only) and FACES
     # (2D-cells only). Split cells into zcells and fcells, along with the cell
@@ -365,58 +384,8 @@ def split_f_z(mesh):
         elif cell_block.type in meshio_only["face"]:
             fcells.append(cell_block)
 
-    zsets = {}
-    fsets = {}
-    for key, cset in mesh.cell_sets.items():
-        zsets[key] = []
-        fsets[key] = []
-        for cell_block, sblock in zip(mesh.cells, cset):
-            zsets[key].append(
-                sblock if cell_block.type in meshio_only["zone"] else None
-            )
-            fsets[key].append(
-                sblock if cell_block.type in meshio_only["face"] else None
-            )
-
-    # remove the data that is only None
-    zsets = {
-        key: value
-        for key, value in zsets.items()
-        if not all(item is None for item in value)
-    }
-    fsets = {
-        key: value
-        for key, value in fsets.items()
-        if not all(item is None for item in value)
-    }
-
-    # Right now, the zsets contain indices into the corresponding cell block.
-    # FLAC3D expects _global_ indices. Update.
-    cell_block_sizes = [len(cb) for cb in zcells]
-    for key, data in zsets.items():
-        gid = 0
-        for n, block in zip(cell_block_sizes, data):
-            block += gid
-            gid += n
-
-    # TODO not sure if fcells and zcells share a common global index
-    cell_block_sizes = [len(cb) for cb in fcells]
-    for key, data in fsets.items():
-        gid = 0
-        for n, block in zip(cell_block_sizes, data):
-            block += gid
-            gid += n
-
-    for label, values in zsets.items():
-        zsets[label] = np.concatenate(values)
-    for label, values in fsets.items():
-        fsets[label] = np.concatenate(values)
-
-    # flac3d indices start at 1
-    for label, values in zsets.items():
-        zsets[label] += 1
-    for label, values in fsets.items():
-        fsets[label] += 1
+    zsets = _global_sets(mesh, "zone")
+    fsets = _global_sets(mesh, "face")
 
     return zcells, fcells, zsets, fsets
 
-- 
2.43.0


From 3e1e9864a6e09506811176a8bbff4fc302db1bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:25 +0000
Subject: [PATCH 061/160] fix: FLAC3D writer writes faces

---
 src/meshio/flac3d/_flac3d.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/meshio/flac3d/_flac3d.py b/src/meshio/flac3d/_flac3d.py
index ec53389..029d3ac 100644
--- a/src/meshio/flac3d/_flac3d.py
+++ b/src/meshio/flac3d/_flac3d.py
@@ -392,9 +392,13 @@ def split_f_z(mesh):
 
 def write(filename, mesh: Mesh, float_fmt: str = ".16e", binary: bool = False):
     """Write FLAC3D f3grid grid file."""
-    skip = [c.type for c in mesh.cells if c.type not in meshio_only["zone"]]
+    skip = [
+        c.type
+        for c in mesh.cells
+        if c.type not in meshio_only["zone"] and c.type not in meshio_only["face"]
+    ]
     if skip:
-        warn(f'FLAC3D format only supports 3D cells. Skipping {", ".join(skip)}.')
+        warn(f'FLAC3D format only supports 2D and 3D cells. Skipping {", ".join(skip)}.')
 
     # split into face/zone data
     zcells, fcells, zsets, fsets = split_f_z(mesh)
@@ -413,10 +417,11 @@ def write(filename, mesh: Mesh, float_fmt: str = ".16e", binary: bool = False):
         # inside the functions.
         gid = np.array(0)
         #
-        cells = _translate_zcells(mesh.points, mesh.cells)
+        cells = _translate_zcells(mesh.points, zcells)
         _write_cells(f, cells, "zone", binary, gid)
         _write_groups(f, mesh.cells, zsets, "zone", binary)
-        #
+        # zones and faces are numbered separately
+        gid = np.array(0)
         cells = _translate_fcells(fcells)
         _write_cells(f, cells, "face", binary, gid)
         _write_groups(f, mesh.cells, fsets, "face", binary)
@@ -537,10 +542,9 @@ def _translate_fcells(cells):
     """Reorder meshio cells to FLAC3D faces."""
     faces = []
     for cell_block in cells:
-        ctype, data = cell_block
-        assert ctype in meshio_only["face"]
+        assert cell_block.type in meshio_only["face"]
 
-        key = meshio_only["face"][ctype]
+        key = meshio_only["face"][cell_block.type]
         data = cell_block.data[:, meshio_to_flac3d_order[key]]
         faces.append((key, data))
 
-- 
2.43.0


From bcb3fef624917db702cfd108ba5c04b8ad56f4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:25 +0000
Subject: [PATCH 062/160] fix: FLAC3D binary group names beyond ASCII

---
 src/meshio/flac3d/_flac3d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/meshio/flac3d/_flac3d.py b/src/meshio/flac3d/_flac3d.py
index 029d3ac..d4370c3 100644
--- a/src/meshio/flac3d/_flac3d.py
+++ b/src/meshio/flac3d/_flac3d.py
@@ -483,11 +483,12 @@ def _write_groups(f, cells, materials, flag, binary) -> None:
     if binary:
         f.write(struct.pack("<I", len(materials)))
         for label, group in materials.items():
+            label = label.encode()
             num_chars, num_zones = len(label), len(group)
             fmt = f"<H{num_chars}sH7sI{num_zones}I"
             tmp = [
                 num_chars,
-                label.encode(),
+                label,
                 7,
                 b"Default",  # slot
                 num_zones,
-- 
2.43.0


From 0d156a750dc28a4dfe19e8b0eb112a63de97319d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:01 +0000
Subject: [PATCH 063/160] fix: Tecplot zone type when 2D cells are skipped

---
 src/meshio/tecplot/_tecplot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/meshio/tecplot/_tecplot.py b/src/meshio/tecplot/_tecplot.py
index 1f25671..1035b6b 100644
--- a/src/meshio/tecplot/_tecplot.py
+++ b/src/meshio/tecplot/_tecplot.py
@@ -422,6 +422,7 @@ def write(filename, mesh):
         if len(np.unique(num_dims)) == 2:
             warn("Mesh contains 2D and 3D cells. Skipping 2D cells.")
             cell_blocks = [ic for ic, ndim in zip(cell_blocks, num_dims) if ndim == 3]
+            num_dims = [3] * len(cell_blocks)
 
         # Convert 2D cells to quads / 3D cells to hexahedra
         zone_type = "FEQUADRILATERAL" if num_dims[0] == 2 else "FEBRICK"
-- 
2.43.0


From b4b39bdcb7babbcdcc5e921116e4adeecfa50424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:02 +0000
Subject: [PATCH 064/160] fix: Tecplot nodal and cell-centered variables of the
 same name

---
 src/meshio/tecplot/_tecplot.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/meshio/tecplot/_tecplot.py b/src/meshio/tecplot/_tecplot.py
index 1035b6b..82c9133 100644
--- a/src/meshio/tecplot/_tecplot.py
+++ b/src/meshio/tecplot/_tecplot.py
@@ -212,14 +212,13 @@ def read_buffer(f):
         if zone_format == "FEBLOCK"
         else np.transpose(data)
     )
-    data = {k: v for k, v in zip(variables, data)}
 
     point_data, cell_data = {}, {}
-    for i, variable in zip(is_cell_centered, variables):
+    for i, variable, values in zip(is_cell_centered, variables, data):
         if i:
-            cell_data[variable] = [data[variable]]
+            cell_data[variable] = [values]
         else:
-            point_data[variable] = data[variable]
+            point_data[variable] = values
 
     x = "X" if "X" in point_data.keys() else "x"
     y = "Y" if "Y" in point_data.keys() else "y"
-- 
2.43.0


From d0dd905bbfaf940aef1ccf0c43b43c65425cb199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:19 +0000
Subject: [PATCH 065/160] fix: MSH 4.0 writer numbers the elements from 1, as
 ElementData refers to them

---
 src/meshio/gmsh/_gmsh40.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/meshio/gmsh/_gmsh40.py b/src/meshio/gmsh/_gmsh40.py
index 9304cf3..656e5fe 100644
--- a/src/meshio/gmsh/_gmsh40.py
+++ b/src/meshio/gmsh/_gmsh40.py
@@ -312,7 +312,7 @@ def _write_elements(fh, cell_blocks: list[CellBlock], binary: bool):
         total_num_cells = sum(len(cell_block) for cell_block in cell_blocks)
         np.array([len(cell_blocks), total_num_cells], dtype=c_ulong).tofile(fh)
 
-        consecutive_index = 0
+        consecutive_index = 1
         for cell_block in cell_blocks:
             node_idcs = _meshio_to_gmsh_order(cell_block.type, cell_block.data)
 
@@ -347,7 +347,7 @@ def _write_elements(fh, cell_blocks: list[CellBlock], binary: bool):
         total_num_cells = sum(len(cell_block) for cell_block in cell_blocks)
         fh.write(f"{len(cell_blocks)} {total_num_cells}\n".encode())
 
-        consecutive_index = 0
+        consecutive_index = 1
         for cell_block in cell_blocks:
             cell_type = cell_block.type
             cell_data = _meshio_to_gmsh_order(cell_block.type, cell_block.data)
-- 
2.43.0


From 85a2e24f742c9602f6565e8bc0192d3f49726604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:34 +0000
Subject: [PATCH 066/160] fix: cell_sets_dict offsets after blocks without
 members, and list members

---
 src/meshio/_mesh.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/meshio/_mesh.py b/src/meshio/_mesh.py
index 93e3412..90def86 100644
--- a/src/meshio/_mesh.py
+++ b/src/meshio/_mesh.py
@@ -287,14 +287,11 @@ class Mesh:
             sets_dict[key] = {}
             offsets = {}
             for members, cells in zip(member_list, self.cells):
+                offset = offsets.get(cells.type, 0)
+                offsets[cells.type] = offset + len(cells)
                 if members is None:
                     continue
-                if cells.type in offsets:
-                    offset = offsets[cells.type]
-                    offsets[cells.type] += cells.data.shape[0]
-                else:
-                    offset = 0
-                    offsets[cells.type] = cells.data.shape[0]
+                members = np.asarray(members, dtype=int)
                 if cells.type in sets_dict[key]:
                     sets_dict[key][cells.type].append(members + offset)
                 else:
-- 
2.43.0


From 756ee2723781d20eaa09ac467112309f636aa6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:34 +0000
Subject: [PATCH 067/160] fix: point_data_to_sets names its sets after the data

---
 src/meshio/_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/_mesh.py b/src/meshio/_mesh.py
index 90def86..3cc8232 100644
--- a/src/meshio/_mesh.py
+++ b/src/meshio/_mesh.py
@@ -411,7 +411,7 @@ class Mesh:
         names = list(dict.fromkeys(names))
         if len(names) != len(tags):
             # alternative names
-            names = [f"set-key-{tag}" for tag in tags]
+            names = [f"set-{key}-{tag}" for tag in tags]
 
         # TODO there's probably a better way besides np.where, something from
         # np.unique or np.sort
-- 
2.43.0


From 11e5bf1457995a4045bf4aca50b3de91b48a73ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:34 +0000
Subject: [PATCH 068/160] fix: data_to_sets does not name the remainder like a
 set

---
 src/meshio/_mesh.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/meshio/_mesh.py b/src/meshio/_mesh.py
index 3cc8232..322e587 100644
--- a/src/meshio/_mesh.py
+++ b/src/meshio/_mesh.py
@@ -381,8 +381,8 @@ class Mesh:
         # remove duplicates and preserve order
         # <https://stackoverflow.com/a/7961390/353337>:
         names = list(dict.fromkeys(names))
-        if len(names) != len(tags):
-            # alternative names
+        if len(names) != len(tags) or -1 in tags:
+            # alternative names (-1 marks what is in no set)
             names = [f"set-{key}-{tag}" for tag in tags]
 
         # TODO there's probably a better way besides np.where, something from
@@ -409,8 +409,8 @@ class Mesh:
         # remove duplicates and preserve order
         # <https://stackoverflow.com/a/7961390/353337>:
         names = list(dict.fromkeys(names))
-        if len(names) != len(tags):
-            # alternative names
+        if len(names) != len(tags) or -1 in tags:
+            # alternative names (-1 marks what is in no set)
             names = [f"set-{key}-{tag}" for tag in tags]
 
         # TODO there's probably a better way besides np.where, something from
-- 
2.43.0


From 306dbeebdafbe07a8b861d9739672b4bec626f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:34 +0000
Subject: [PATCH 069/160] fix: deregister_format removes all writers and
 extensions of the format

---
 src/meshio/_helpers.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/meshio/_helpers.py b/src/meshio/_helpers.py
index 6cc7dac..fac14a5 100644
--- a/src/meshio/_helpers.py
+++ b/src/meshio/_helpers.py
@@ -14,6 +14,8 @@ from ._mesh import CellBlock, Mesh
 extension_to_filetypes = {}
 reader_map = {}
 _writer_map = {}
+# which format registered the writer
+_writer_owner = {}
 
 
 def register_format(
@@ -28,18 +30,21 @@ def register_format(
         reader_map[format_name] = reader
 
     _writer_map.update(writer_map)
+    for name in writer_map:
+        _writer_owner[name] = format_name
 
 
 def deregister_format(format_name: str):
     for value in extension_to_filetypes.values():
-        if format_name in value:
+        while format_name in value:
             value.remove(format_name)
 
     if format_name in reader_map:
         reader_map.pop(format_name)
 
-    if format_name in _writer_map:
-        _writer_map.pop(format_name)
+    for name in [n for n, owner in _writer_owner.items() if owner == format_name]:
+        _writer_owner.pop(name)
+        _writer_map.pop(name)
 
 
 def _filetypes_from_path(path: Path) -> list[str]:
-- 
2.43.0


From 168327cce7caf621734ed66238c46e0ee1bc24fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:34 +0000
Subject: [PATCH 070/160] fix: meshio convert --int-data-to-sets

---
 src/meshio/_cli/_convert.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/meshio/_cli/_convert.py b/src/meshio/_cli/_convert.py
index 1a2edd3..1710936 100644
--- a/src/meshio/_cli/_convert.py
+++ b/src/meshio/_cli/_convert.py
@@ -60,10 +60,12 @@ def convert(args):
         mesh.cell_sets_to_data()
 
     if args.int_data_to_sets:
-        for key in mesh.point_data:
-            mesh.point_data_to_sets(key)
-        for key in mesh.cell_data:
-            mesh.cell_data_to_sets(key)
+        for key, data in list(mesh.point_data.items()):
+            if data.dtype.kind in ["i", "u"]:
+                mesh.point_data_to_sets(key)
+        for key, data in list(mesh.cell_data.items()):
+            if all(d.dtype.kind in ["i", "u"] for d in data):
+                mesh.cell_data_to_sets(key)
 
     # write it out
     kwargs = {"file_format": args.output_format}
-- 
2.43.0


From a0c8a1b132787655fba843362b32a22baed411c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:34 +0000
Subject: [PATCH 071/160] fix: meshio info reports cells that refer to the
 point after the last

---
 src/meshio/_cli/_info.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/_cli/_info.py b/src/meshio/_cli/_info.py
index dc269e7..546cbac 100644
--- a/src/meshio/_cli/_info.py
+++ b/src/meshio/_cli/_info.py
@@ -24,7 +24,7 @@ def info(args):
     # check if the cell arrays are consistent with the points
     is_consistent = True
     for cells in mesh.cells:
-        if np.any(cells.data > mesh.points.shape[0]):
+        if np.any(cells.data >= mesh.points.shape[0]):
             warn("Inconsistent mesh. Cells refer to nonexistent points.")
             is_consistent = False
             break
-- 
2.43.0


From 0dc1543368db16880fadcec4a723e0a3f497b906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:11 +0000
Subject: [PATCH 072/160] fix: the format vtk51 writes VTK 5.1

---
 src/meshio/vtk/_main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/vtk/_main.py b/src/meshio/vtk/_main.py
index 1e8e717..0dad2d2 100644
--- a/src/meshio/vtk/_main.py
+++ b/src/meshio/vtk/_main.py
@@ -40,7 +40,7 @@ register_format(
     read,
     {
         "vtk42": _vtk_42.write,
-        "vtk51": _vtk_42.write,
+        "vtk51": _vtk_51.write,
         "vtk": _vtk_51.write,
     },
 )
-- 
2.43.0


From da854a0e05cb414aafbf26ce1590f70cd0a333d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:45 +0000
Subject: [PATCH 073/160] fix: VTK and VTU writers leave the caller's blocks,
 data, and sets alone

---
 src/meshio/_vtk_common.py | 13 +++++++++++++
 src/meshio/vtk/_vtk_51.py |  3 +++
 src/meshio/vtu/_vtu.py    | 11 +++++++++--
 3 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/meshio/_vtk_common.py b/src/meshio/_vtk_common.py
index 4450102..f36e27d 100644
--- a/src/meshio/_vtk_common.py
+++ b/src/meshio/_vtk_common.py
@@ -1,9 +1,22 @@
+import copy
+
 import numpy as np
 
 from ._common import num_nodes_per_cell, warn
 from ._exceptions import ReadError
 from ._mesh import CellBlock
 
+
+def shallow_copy(mesh):
+    """The writers adapt blocks, data, and sets; this keeps the caller's mesh as is."""
+    mesh = copy.copy(mesh)
+    mesh.cells = list(mesh.cells)
+    mesh.point_data = dict(mesh.point_data)
+    mesh.cell_data = {name: list(data) for name, data in mesh.cell_data.items()}
+    mesh.field_data = dict(mesh.field_data)
+    return mesh
+
+
 # https://vtk.org/doc/nightly/html/vtkCellType_8h_source.html
 vtk_to_meshio_type = {
     0: "empty",
diff --git a/src/meshio/vtk/_vtk_51.py b/src/meshio/vtk/_vtk_51.py
index 2eb1db6..d6c67aa 100644
--- a/src/meshio/vtk/_vtk_51.py
+++ b/src/meshio/vtk/_vtk_51.py
@@ -11,6 +11,7 @@ from .._vtk_common import (
     Info,
     meshio_to_vtk_order,
     meshio_to_vtk_type,
+    shallow_copy,
     vtk_cells_from_data,
 )
 
@@ -511,6 +512,8 @@ def write(filename, mesh, binary=True):
     if not binary:
         warn("VTK ASCII files are only meant for debugging.")
 
+    mesh = shallow_copy(mesh)
+
     if mesh.point_sets:
         info(
             "VTK format cannot write point_sets. Converting them to point_data...",
diff --git a/src/meshio/vtu/_vtu.py b/src/meshio/vtu/_vtu.py
index be80904..24781d4 100644
--- a/src/meshio/vtu/_vtu.py
+++ b/src/meshio/vtu/_vtu.py
@@ -16,7 +16,12 @@ from .._common import info, join_strings, raw_from_cell_data, replace_space, war
 from .._exceptions import CorruptionError, ReadError
 from .._helpers import register_format
 from .._mesh import CellBlock, Mesh
-from .._vtk_common import meshio_to_vtk_order, meshio_to_vtk_type, vtk_cells_from_data
+from .._vtk_common import (
+    meshio_to_vtk_order,
+    meshio_to_vtk_type,
+    shallow_copy,
+    vtk_cells_from_data,
+)
 
 # Paraview 5.8.1's built-in Python doesn't have lzma.
 try:
@@ -597,6 +602,8 @@ def write(filename, mesh, binary=True, compression="zlib", header_type=None):
     # very memory hungry. See <https://stackoverflow.com/q/59272477/353337>.
     from .._cxml import etree as ET
 
+    mesh = shallow_copy(mesh)
+
     # Check if the mesh contains polyhedral cells, this will require special treatment
     # in certain places.
     is_polyhedron_grid = False
@@ -686,7 +693,7 @@ def write(filename, mesh, binary=True, compression="zlib", header_type=None):
                         face_info.astype(face_info.dtype.newbyteorder("="), copy=False)
                     )
                 new_cell_info.append(new_face_info)
-            mesh.cells[k] = CellBlock(cell_type, new_cell_info)
+            cell_block.data = new_cell_info
         else:
             mesh.cells[k] = CellBlock(
                 cell_type, data.astype(data.dtype.newbyteorder("="), copy=False)
-- 
2.43.0


From c0901c2039a07970e0f67a6df8e0bbbf9a25dea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:45 +0000
Subject: [PATCH 074/160] fix: name of the point data that VTK writers make of
 point sets

---
 src/meshio/vtk/_vtk_51.py | 7 ++++---
 src/meshio/vtu/_vtu.py    | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/meshio/vtk/_vtk_51.py b/src/meshio/vtk/_vtk_51.py
index d6c67aa..9bc8529 100644
--- a/src/meshio/vtk/_vtk_51.py
+++ b/src/meshio/vtk/_vtk_51.py
@@ -519,9 +519,10 @@ def write(filename, mesh, binary=True):
             "VTK format cannot write point_sets. Converting them to point_data...",
             highlight=False,
         )
-        key, _ = join_strings(list(mesh.point_sets.keys()))
-        key, _ = replace_space(key)
-        mesh.point_sets_to_data(key)
+        joined, join_char = join_strings(list(mesh.point_sets.keys()))
+        key, _ = replace_space(joined)
+        mesh.point_sets_to_data(join_char)
+        mesh.point_data[key] = mesh.point_data.pop(joined)
 
     if mesh.cell_sets:
         info(
diff --git a/src/meshio/vtu/_vtu.py b/src/meshio/vtu/_vtu.py
index 24781d4..6e6c9d0 100644
--- a/src/meshio/vtu/_vtu.py
+++ b/src/meshio/vtu/_vtu.py
@@ -638,9 +638,10 @@ def write(filename, mesh, binary=True, compression="zlib", header_type=None):
             "VTU format cannot write point_sets. Converting them to point_data...",
             highlight=False,
         )
-        key, _ = join_strings(list(mesh.point_sets.keys()))
-        key, _ = replace_space(key)
-        mesh.point_sets_to_data(key)
+        joined, join_char = join_strings(list(mesh.point_sets.keys()))
+        key, _ = replace_space(joined)
+        mesh.point_sets_to_data(join_char)
+        mesh.point_data[key] = mesh.point_data.pop(joined)
 
     if mesh.cell_sets:
         info(
-- 
2.43.0


From e15ea587be3afde49bc536b17ae81e880cc1b509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:52 +0000
Subject: [PATCH 075/160] fix: a mesh read from MSH 4.1 can be written as MSH
 4.0

The node entities that the 4.1 reader keeps in gmsh:dim_tags were written as
two-component node data, which the format does not have (WriteError).
---
 src/meshio/gmsh/_gmsh40.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/meshio/gmsh/_gmsh40.py b/src/meshio/gmsh/_gmsh40.py
index 656e5fe..aeca728 100644
--- a/src/meshio/gmsh/_gmsh40.py
+++ b/src/meshio/gmsh/_gmsh40.py
@@ -257,6 +257,9 @@ def write(filename, mesh: Mesh, float_fmt: str = ".16e", binary: bool = True) ->
         if mesh.gmsh_periodic is not None:
             _write_periodic(fh, mesh.gmsh_periodic, float_fmt, binary)
         for name, dat in mesh.point_data.items():
+            # gmsh:dim_tags are the entities of the nodes (MSH 4.1), not point data
+            if name == "gmsh:dim_tags":
+                continue
             _write_data(fh, "NodeData", name, dat, binary)
         cell_data_raw = raw_from_cell_data(mesh.cell_data)
         for name, dat in cell_data_raw.items():
-- 
2.43.0


From 5197758554e4a198abcf61a4a751a9fb9389c59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:52 +0000
Subject: [PATCH 076/160] fix: MSH 4.1 writer accepts node entities without
 physical tags

A mesh read from a 4.1 file without physical groups could not be written back
(KeyError: gmsh:physical).
---
 src/meshio/gmsh/_gmsh41.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/meshio/gmsh/_gmsh41.py b/src/meshio/gmsh/_gmsh41.py
index 0617e44..9beae84 100644
--- a/src/meshio/gmsh/_gmsh41.py
+++ b/src/meshio/gmsh/_gmsh41.py
@@ -478,10 +478,14 @@ def _write_entities(fh, cells, tag_data, cell_sets, point_data, binary):
 
         # If there is a corresponding cell block, write physical tags (if any)
         # and bounding entities (if any)
-        if matching_cell_block.size > 0:
-            # entity has a physical tag, write this
+        physical_tag = 0
+        if matching_cell_block.size > 0 and "gmsh:physical" in tag_data:
             # ASSUMPTION: There is a single physical tag for this
             physical_tag = tag_data["gmsh:physical"][matching_cell_block[0]][0]
+
+        # 0 stands for "no physical tag"
+        if physical_tag != 0:
+            # entity has a physical tag, write this
             if binary:
                 np.array([1], dtype=c_size_t).tofile(fh)
                 np.array([physical_tag], dtype=c_int).tofile(fh)
-- 
2.43.0


From 53dbbadd95678578bbecc6fecf46518fc7ecfc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:10 +0000
Subject: [PATCH 077/160] fix: read MSH 4 files in which only some entities
 have physical tags

The gmsh:physical data had fewer blocks than the mesh, which the mesh constructor
rejects (ValueError). Cells without a physical group now get the tag 0.
---
 src/meshio/gmsh/_gmsh40.py | 7 +++++--
 src/meshio/gmsh/_gmsh41.py | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/meshio/gmsh/_gmsh40.py b/src/meshio/gmsh/_gmsh40.py
index aeca728..d6bf1e4 100644
--- a/src/meshio/gmsh/_gmsh40.py
+++ b/src/meshio/gmsh/_gmsh40.py
@@ -189,15 +189,18 @@ def _read_elements(f, point_tags, physical_tags, is_ascii):
         for physical_tag, geom_tag, tpe, d in data
     ]
 
+    # If some entities have physical tags and others don't, the latter get the tag 0
+    has_physical = any(d[0] for d in data)
+
     cells = []
     cell_data = {}
     for physical_tag, geom_tag, key, values in data:
         cells.append(CellBlock(key, _gmsh_to_meshio_order(key, values)))
-        if physical_tag:
+        if has_physical:
             if "gmsh:physical" not in cell_data:
                 cell_data["gmsh:physical"] = []
             cell_data["gmsh:physical"].append(
-                np.full(len(values), physical_tag[0], int)
+                np.full(len(values), physical_tag[0] if physical_tag else 0, int)
             )
         if "gmsh:geometrical" not in cell_data:
             cell_data["gmsh:geometrical"] = []
diff --git a/src/meshio/gmsh/_gmsh41.py b/src/meshio/gmsh/_gmsh41.py
index 9beae84..436f279 100644
--- a/src/meshio/gmsh/_gmsh41.py
+++ b/src/meshio/gmsh/_gmsh41.py
@@ -250,14 +250,17 @@ def _read_elements(
         for physical_tag, bound_entity, geom_tag, tpe, d in data
     ]
 
+    # If some entities have physical tags and others don't, the latter get the tag 0
+    has_physical = any(d[0] for d in data)
+
     cells = []
     for physical_tag, bound_entity, geom_tag, key, values in data:
         cells.append(CellBlock(key, _gmsh_to_meshio_order(key, values)))
-        if physical_tag:
+        if has_physical:
             if "gmsh:physical" not in cell_data:
                 cell_data["gmsh:physical"] = []
             cell_data["gmsh:physical"].append(
-                np.full(len(values), physical_tag[0], int)
+                np.full(len(values), physical_tag[0] if physical_tag else 0, int)
             )
         if "gmsh:geometrical" not in cell_data:
             cell_data["gmsh:geometrical"] = []
-- 
2.43.0


From 2cc2138d29b4e653af345b6fe477fdf68dc14b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:57 +0000
Subject: [PATCH 078/160] fix: the PLY reader raises on an incomplete header
 instead of hanging

---
 src/meshio/ply/_ply.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/meshio/ply/_ply.py b/src/meshio/ply/_ply.py
index 8fe8623..b6a4ab7 100644
--- a/src/meshio/ply/_ply.py
+++ b/src/meshio/ply/_ply.py
@@ -67,7 +67,10 @@ def read(filename):
 def _next_line(f):
     # fast forward to the next significant line
     while True:
-        line = f.readline().decode().strip()
+        line = f.readline().decode()
+        if not line:
+            raise ReadError("Unexpected end of file in the header.")
+        line = line.strip()
         if line and line[:7] != "comment":
             break
     return line
-- 
2.43.0


From fb7e698ce4cedd80f9351c6be10fd6ad507b843a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:57 +0000
Subject: [PATCH 079/160] fix: the OFF reader raises on an incomplete header
 instead of hanging

---
 src/meshio/off/_off.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/meshio/off/_off.py b/src/meshio/off/_off.py
index c3b670b..7794f76 100644
--- a/src/meshio/off/_off.py
+++ b/src/meshio/off/_off.py
@@ -31,7 +31,10 @@ def read_buffer(f):
 
     # fast forward to the next significant line
     while True:
-        line = f.readline().strip()
+        line = f.readline()
+        if not line:
+            raise ReadError("Unexpected end of file in the header.")
+        line = line.strip()
         if line and line[0] != "#":
             break
 
-- 
2.43.0


From f7163284b6b5b422796a9a097aa0e1f5a6a5f4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:26 +0000
Subject: [PATCH 080/160] fix: the TetGen reader raises on an incomplete file
 instead of hanging

---
 src/meshio/tetgen/_tetgen.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/meshio/tetgen/_tetgen.py b/src/meshio/tetgen/_tetgen.py
index 5a9b4d6..93ee37e 100644
--- a/src/meshio/tetgen/_tetgen.py
+++ b/src/meshio/tetgen/_tetgen.py
@@ -14,6 +14,17 @@ from .._helpers import register_format
 from .._mesh import CellBlock, Mesh
 
 
+def _next_line(f):
+    # fast forward to the next significant line
+    while True:
+        line = f.readline()
+        if not line:
+            raise ReadError("Unexpected end of file.")
+        line = line.strip()
+        if line and line[0] != "#":
+            return line
+
+
 def read(filename):
     filename = pathlib.Path(filename)
     if filename.suffix == ".node":
@@ -30,9 +41,7 @@ def read(filename):
 
     # read nodes
     with open(node_filename) as f:
-        line = f.readline().strip()
-        while len(line) == 0 or line[0] == "#":
-            line = f.readline().strip()
+        line = _next_line(f)
 
         num_points, dim, num_attrs, num_bmarkers = (
             int(item) for item in line.split(" ") if item != ""
@@ -63,9 +72,7 @@ def read(filename):
 
     # read elements
     with open(ele_filename.as_posix()) as f:
-        line = f.readline().strip()
-        while len(line) == 0 or line[0] == "#":
-            line = f.readline().strip()
+        line = _next_line(f)
 
         num_tets, num_points_per_tet, num_attrs = (
             int(item) for item in line.strip().split(" ") if item != ""
-- 
2.43.0


From 78a998ce5f8db6a9beb4f5869b0f6c90502dba34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:26 +0000
Subject: [PATCH 081/160] fix: the WKT reader rejects an incomplete string
 instead of backtracking forever

---
 src/meshio/wkt/_wkt.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/meshio/wkt/_wkt.py b/src/meshio/wkt/_wkt.py
index 5c10fbd..5a97aec 100644
--- a/src/meshio/wkt/_wkt.py
+++ b/src/meshio/wkt/_wkt.py
@@ -10,7 +10,9 @@ from .._files import open_file
 from .._helpers import register_format
 from .._mesh import CellBlock, Mesh
 
-float_pattern = r"[+-]?(?:\d+\.?\d*|\d*\.?\d+)(?:[eE][+-]?\d+)?"
+# Every number can be matched in one way only; otherwise, the time to reject a string
+# grows exponentially with the number of digits.
+float_pattern = r"[+-]?(?:\d+(?:\.\d*)?|\.\d+)(?:[eE][+-]?\d+)?"
 float_re = re.compile(float_pattern)
 
 point_pattern = r"{0}\s+{0}\s+{0}(?:\s+{0})?".format(float_pattern)
-- 
2.43.0


From fd608e48f89894bdf469a5a6cfa0e454ef35ea1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:26 +0000
Subject: [PATCH 082/160] fix: the binary Medit reader raises if there are no
 vertices

Like the ASCII reader. It returned a mesh whose points were None.
---
 src/meshio/medit/_medit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/meshio/medit/_medit.py b/src/meshio/medit/_medit.py
index 272bd16..7fd9096 100644
--- a/src/meshio/medit/_medit.py
+++ b/src/meshio/medit/_medit.py
@@ -165,6 +165,8 @@ def read_binary_buffer(f):
             cells.append((meshio_type, out_view[:, :ncols] - 1))
             cell_data["medit:ref"].append(out_view[:, -1])
 
+    if points is None:
+        raise ReadError("Expected `Vertices`")
     return Mesh(points, cells, point_data=point_data, cell_data=cell_data)
 
 
-- 
2.43.0


From 27e0026687069c82a4733cec9c746e9c9a3007c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:26 +0000
Subject: [PATCH 083/160] fix: the Netgen reader raises if points are missing

It returned meshes whose cells referred to points that do not exist.
---
 src/meshio/netgen/_netgen.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/meshio/netgen/_netgen.py b/src/meshio/netgen/_netgen.py
index a9b933a..a57a665 100644
--- a/src/meshio/netgen/_netgen.py
+++ b/src/meshio/netgen/_netgen.py
@@ -7,6 +7,7 @@ import numpy as np
 
 from ..__about__ import __version__
 from .._common import warn
+from .._exceptions import ReadError
 from .._files import open_file
 from .._helpers import register_format
 from .._mesh import Mesh
@@ -265,6 +266,10 @@ def read_buffer(f):
             num_points = int(f.readline())
             if num_points > 0:
                 points = np.loadtxt(f, max_rows=num_points, ndmin=2)
+                if len(points) != num_points:
+                    raise ReadError(
+                        f"Expected {num_points} points, found {len(points)}."
+                    )
                 if dimension != 3:
                     points = points[:, :dimension]
 
@@ -322,6 +327,9 @@ def read_buffer(f):
         else:
             raise RuntimeError(f"Unknown Netgen mesh token: {line}")
 
+    if len(cells) > 0 and len(points) == 0:
+        raise ReadError("Expected `points`")
+
     # convert to numpy arrays
     # subtract one (netgen counts 1-based)
     # apply permutation of vertex numbers
-- 
2.43.0


From 0b377362d608864a596e4acd269a70d0c0c0c08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:42 +0000
Subject: [PATCH 084/160] fix: HDF5-based writers close their file and report
 what fails doing so

The MED, CGNS, H5M and XDMF writers left the HDF5 file to the garbage collector,
where errors are lost: with a full disk, the write returned normally.
---
 src/meshio/cgns/_cgns.py | 5 ++++-
 src/meshio/h5m/_h5m.py   | 7 ++++++-
 src/meshio/med/_med.py   | 5 ++++-
 src/meshio/xdmf/main.py  | 3 +++
 4 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/meshio/cgns/_cgns.py b/src/meshio/cgns/_cgns.py
index fde2ae7..fedf630 100644
--- a/src/meshio/cgns/_cgns.py
+++ b/src/meshio/cgns/_cgns.py
@@ -43,8 +43,11 @@ def read(filename):
 def write(filename, mesh, compression="gzip", compression_opts=4):
     import h5py
 
-    f = h5py.File(filename, "w")
+    with h5py.File(filename, "w") as f:
+        _write(f, mesh, compression, compression_opts)
 
+
+def _write(f, mesh, compression, compression_opts):
     base = f.create_group("Base")
 
     # TODO something is missing here
diff --git a/src/meshio/h5m/_h5m.py b/src/meshio/h5m/_h5m.py
index c6d4dad..5181c5d 100644
--- a/src/meshio/h5m/_h5m.py
+++ b/src/meshio/h5m/_h5m.py
@@ -116,7 +116,12 @@ def read(filename):
 def write(filename, mesh, add_global_ids=True, compression="gzip", compression_opts=4):
     import h5py
 
-    f = h5py.File(filename, "w")
+    with h5py.File(filename, "w") as f:
+        _write(f, mesh, add_global_ids, compression, compression_opts)
+
+
+def _write(f, mesh, add_global_ids, compression, compression_opts):
+    import h5py
 
     tstt = f.create_group("tstt")
 
diff --git a/src/meshio/med/_med.py b/src/meshio/med/_med.py
index 0cdd35c..df3e9ea 100644
--- a/src/meshio/med/_med.py
+++ b/src/meshio/med/_med.py
@@ -217,8 +217,11 @@ def write(filename, mesh):
     # <https://github.com/nschloe/meshio/issues/781#issuecomment-616438066>
     # compression = None
 
-    f = h5py.File(filename, "w")
+    with h5py.File(filename, "w") as f:
+        _write(f, mesh)
 
+
+def _write(f, mesh):
     # Strangely the version must be 3.0.x
     # Any version >= 3.1.0 will NOT work with SALOME 8.3
     info = f.create_group("INFOS_GENERALES")
diff --git a/src/meshio/xdmf/main.py b/src/meshio/xdmf/main.py
index ea3990b..6c617d0 100644
--- a/src/meshio/xdmf/main.py
+++ b/src/meshio/xdmf/main.py
@@ -370,6 +370,9 @@ class XdmfWriter:
         self.write_point_data(mesh.point_data, grid)
         self.write_cell_data(mesh.cell_data, grid)
 
+        if data_format == "HDF":
+            self.h5_file.close()
+
         ET.register_namespace("xi", "https://www.w3.org/2001/XInclude/")
 
         write_xml(filename, xdmf_file)
-- 
2.43.0


From 0a9c828bcfc50f6b5ec4e0f7cb8aa7cfc822d964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:42 +0000
Subject: [PATCH 085/160] fix: STL, UGRID, Medit and XDMF binary writers report
 a full disk

numpy's tofile() does not report errors of the final flush. If it was the last
thing to write, the write returned normally with an incomplete file.
---
 src/meshio/medit/_medit.py     | 12 ++++++------
 src/meshio/stl/_stl.py         |  2 +-
 src/meshio/ugrid/_ugrid.py     |  5 +++--
 src/meshio/xdmf/main.py        |  3 ++-
 src/meshio/xdmf/time_series.py |  3 ++-
 5 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/meshio/medit/_medit.py b/src/meshio/medit/_medit.py
index 7fd9096..83202a0 100644
--- a/src/meshio/medit/_medit.py
+++ b/src/meshio/medit/_medit.py
@@ -421,7 +421,7 @@ def write_binary_file(f, mesh):
         tmp_array["f2"] = field
         tmp_array["f3"] = pos
         tmp_array["f4"] = dim
-        tmp_array.tofile(fh)
+        fh.write(tmp_array.tobytes())
 
         # write points
         field = 4  # GmfVertices
@@ -435,7 +435,7 @@ def write_binary_file(f, mesh):
         tmp_array["f0"] = field
         tmp_array["f1"] = pos
         tmp_array["f2"] = num_verts
-        tmp_array.tofile(fh)
+        fh.write(tmp_array.tobytes())
 
         field_template = field_code[2]
         dtype = np.dtype(_produce_dtype(field_template, dim, itype, ftype))
@@ -456,7 +456,7 @@ def write_binary_file(f, mesh):
         tmp_array = np.empty(num_verts, dtype=dtype)
         tmp_array["f0"] = mesh.points
         tmp_array["f1"] = labels
-        tmp_array.tofile(fh)
+        fh.write(tmp_array.tobytes())
 
         labels_key, other = _pick_first_int_data(mesh.cell_data)
         if labels_key and other:
@@ -496,7 +496,7 @@ def write_binary_file(f, mesh):
             tmp_array["f0"] = medit_key
             tmp_array["f1"] = pos
             tmp_array["f2"] = num_cells
-            tmp_array.tofile(fh)
+            fh.write(tmp_array.tobytes())
 
             # pick out cell data
             labels = (
@@ -514,7 +514,7 @@ def write_binary_file(f, mesh):
                 i += 1
 
             tmp_array[dtype.names[-1]] = labels
-            tmp_array.tofile(fh)
+            fh.write(tmp_array.tobytes())
 
         pos = 0
         field = 54  # GmfEnd
@@ -522,7 +522,7 @@ def write_binary_file(f, mesh):
         tmp_array = np.empty(1, dtype=header_type)
         tmp_array["f0"] = field
         tmp_array["f1"] = pos
-        tmp_array.tofile(fh)
+        fh.write(tmp_array.tobytes())
 
 
 register_format("medit", [".mesh", ".meshb"], read, {"medit": write})
diff --git a/src/meshio/stl/_stl.py b/src/meshio/stl/_stl.py
index 8be0eed..6bba446 100644
--- a/src/meshio/stl/_stl.py
+++ b/src/meshio/stl/_stl.py
@@ -252,7 +252,7 @@ def _write_binary(filename, pts, normals):
         a["normal"] = normals
         a["points"] = pts
         a["attr"] = 0
-        a.tofile(fh)
+        fh.write(a.tobytes())
 
 
 register_format("stl", [".stl"], read, {"stl": write})
diff --git a/src/meshio/ugrid/_ugrid.py b/src/meshio/ugrid/_ugrid.py
index 359f5c4..0d1c83b 100644
--- a/src/meshio/ugrid/_ugrid.py
+++ b/src/meshio/ugrid/_ugrid.py
@@ -148,13 +148,14 @@ def _write_section(f, file_type, array, dtype):
         fmt = " ".join(["%r"] * ncols)
         np.savetxt(f, array, fmt=fmt)
     else:
-        array.astype(dtype).tofile(f)
+        f.write(array.astype(dtype).tobytes())
 
 
 def write(filename, mesh):
     file_type = determine_file_type(filename)
 
-    with open_file(filename, "w") as f:
+    mode = "w" if file_type["type"] == "ascii" else "wb"
+    with open_file(filename, mode) as f:
         _write_buffer(f, file_type, mesh)
 
 
diff --git a/src/meshio/xdmf/main.py b/src/meshio/xdmf/main.py
index 6c617d0..da35e8c 100644
--- a/src/meshio/xdmf/main.py
+++ b/src/meshio/xdmf/main.py
@@ -390,7 +390,8 @@ class XdmfWriter:
             # write binary data to file
             with open(bin_filename, "wb") as f:
                 # the format defaults to native byte order
-                data.astype(data.dtype.newbyteorder("="), copy=False).tofile(f)
+                data = data.astype(data.dtype.newbyteorder("="), copy=False)
+                f.write(data.tobytes())
             return os.path.basename(bin_filename)
 
         if self.data_format != "HDF":
diff --git a/src/meshio/xdmf/time_series.py b/src/meshio/xdmf/time_series.py
index e0fe1cd..44e244b 100644
--- a/src/meshio/xdmf/time_series.py
+++ b/src/meshio/xdmf/time_series.py
@@ -332,7 +332,8 @@ class TimeSeriesWriter:
             # write binary data to file
             with open(bin_filename, "wb") as f:
                 # the format defaults to native byte order
-                data.astype(data.dtype.newbyteorder("="), copy=False).tofile(f)
+                data = data.astype(data.dtype.newbyteorder("="), copy=False)
+                f.write(data.tobytes())
             return os.path.basename(bin_filename)
 
         if self.data_format != "HDF":
-- 
2.43.0


From d7fb46b10fe3def0920eec90eba67a3e97afe9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:19 +0000
Subject: [PATCH 086/160] fix: the VTU writer accepts field data that are not
 arrays

It does not write field data, but failed with an AttributeError for those of meshes
read from MED or Netgen files.
---
 src/meshio/vtu/_vtu.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/meshio/vtu/_vtu.py b/src/meshio/vtu/_vtu.py
index 6e6c9d0..03a5c52 100644
--- a/src/meshio/vtu/_vtu.py
+++ b/src/meshio/vtu/_vtu.py
@@ -705,8 +705,6 @@ def write(filename, mesh, binary=True, compression="zlib", header_type=None):
     for data in mesh.cell_data.values():
         for k, dat in enumerate(data):
             data[k] = dat.astype(dat.dtype.newbyteorder("="), copy=False)
-    for key, data in mesh.field_data.items():
-        mesh.field_data[key] = data.astype(data.dtype.newbyteorder("="), copy=False)
 
     def numpy_to_xml_array(parent, name, data):
         vtu_type = numpy_to_vtu_type[data.dtype]
-- 
2.43.0


From 0ac7786036ea0bce2aa8f8835856dfdc508afec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:20 +0000
Subject: [PATCH 087/160] fix: the ASCII Medit writer accepts points of foreign
 byte order

As in meshes read from binary VTK files (KeyError: dtype('>f8')).
---
 src/meshio/medit/_medit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/meshio/medit/_medit.py b/src/meshio/medit/_medit.py
index 83202a0..32c8860 100644
--- a/src/meshio/medit/_medit.py
+++ b/src/meshio/medit/_medit.py
@@ -308,7 +308,9 @@ def write(filename, mesh, float_fmt=".16e"):
 
 def write_ascii_file(filename, mesh, float_fmt=".16e"):
     with open_file(filename, "wb") as fh:
-        version = {np.dtype(c_float): 1, np.dtype(c_double): 2}[mesh.points.dtype]
+        version = {np.dtype(c_float): 1, np.dtype(c_double): 2}[
+            mesh.points.dtype.newbyteorder("=")
+        ]
         # N. B.: PEP 461 Adding % formatting to bytes and bytearray
         fh.write(f"MeshVersionFormatted {version}\n".encode())
 
-- 
2.43.0


From e004e0e66b6a20afb51a150ee883816b6a72c8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:38 +0000
Subject: [PATCH 088/160] fix: integer labels are only taken from data with one
 value per point or cell

The Medit, SU2, UGRID, and AVS-UCD writers picked gmsh:dim_tags (two per point) and
other vectors as labels, and failed.
---
 src/meshio/_common.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/meshio/_common.py b/src/meshio/_common.py
index a92ef0e..a4c374a 100644
--- a/src/meshio/_common.py
+++ b/src/meshio/_common.py
@@ -107,7 +107,9 @@ def _pick_first_int_data(data):
     candidate_keys = []
     for key in keys:
         # works for point_data and cell_data
-        if data[key][0].dtype.kind in ["i", "u"]:  # int or uint
+        values = data[key] if isinstance(data[key], np.ndarray) else data[key][0]
+        # int or uint, one per point or cell
+        if values.dtype.kind in ["i", "u"] and values.ndim == 1:
             candidate_keys.append(key)
 
     if len(candidate_keys) > 0:
-- 
2.43.0


From cca67dbe515645b29adde98d81e533f3a0085d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:38 +0000
Subject: [PATCH 089/160] fix: the DOLFIN writer skips vector data, with a
 warning

It wrote the representation of numpy arrays, which cannot be read.
---
 src/meshio/dolfin/_dolfin.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/meshio/dolfin/_dolfin.py b/src/meshio/dolfin/_dolfin.py
index 83f82a2..e37794c 100644
--- a/src/meshio/dolfin/_dolfin.py
+++ b/src/meshio/dolfin/_dolfin.py
@@ -232,6 +232,12 @@ def write(filename, mesh):
         data = np.concatenate(
             [data for c, data in zip(mesh.cells, lst) if c.type == cell_type]
         )
+        if data.ndim != 1:
+            warn(
+                "DOLFIN XML can only write scalar cell data. "
+                f"Skipping '{name}' of shape {data.shape}."
+            )
+            continue
         fname = os.path.splitext(filename)[0]
         cell_data_filename = f"{fname}_{name}.xml"
         dim = 2 if mesh.points.shape[1] == 2 or all(mesh.points[:, 2] == 0) else 3
-- 
2.43.0


From 9a724b9c42b47619e76a291bf187e91af8766301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:38 +0000
Subject: [PATCH 090/160] fix: the TetGen writer skips vector data, with a
 warning

It failed with a TypeError for point data, and wrote malformed files for cell data.
---
 src/meshio/tetgen/_tetgen.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/meshio/tetgen/_tetgen.py b/src/meshio/tetgen/_tetgen.py
index 93ee37e..3026506 100644
--- a/src/meshio/tetgen/_tetgen.py
+++ b/src/meshio/tetgen/_tetgen.py
@@ -100,6 +100,18 @@ def read(filename):
     )
 
 
+def _scalar_keys(data):
+    # works for point_data and cell_data
+    keys = []
+    for key, values in data.items():
+        arrays = [values] if isinstance(values, np.ndarray) else values
+        if all(a.ndim == 1 for a in arrays):
+            keys.append(key)
+        else:
+            warn(f"TetGen can only write scalar data. Skipping '{key}'.")
+    return keys
+
+
 def write(filename, mesh, float_fmt=".16e"):
     filename = pathlib.Path(filename)
     if filename.suffix == ".node":
@@ -117,7 +129,7 @@ def write(filename, mesh, float_fmt=".16e"):
     # write nodes
     with open(node_filename, "w") as fh:
         # identify ":ref" key
-        attr_keys = list(mesh.point_data.keys())
+        attr_keys = _scalar_keys(mesh.point_data)
         ref_keys = [k for k in attr_keys if ":ref" in k]
         if len(attr_keys) > 0:
             if len(ref_keys) > 0:
@@ -156,7 +168,7 @@ def write(filename, mesh, float_fmt=".16e"):
 
     # write cells
     with open(ele_filename, "w") as fh:
-        attr_keys = list(mesh.cell_data.keys())
+        attr_keys = _scalar_keys(mesh.cell_data)
         ref_keys = [k for k in attr_keys if ":ref" in k]
         if len(attr_keys) > 0:
             if len(ref_keys) > 0:
-- 
2.43.0


From b0a544719849d9765d9c4a149218099e1b599882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:27 +0000
Subject: [PATCH 091/160] fix: the PLY writer accepts arrays of foreign byte
 order

As in meshes read from binary VTK files (KeyError: dtype('>f8')).
---
 src/meshio/ply/_ply.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/meshio/ply/_ply.py b/src/meshio/ply/_ply.py
index b6a4ab7..8973308 100644
--- a/src/meshio/ply/_ply.py
+++ b/src/meshio/ply/_ply.py
@@ -389,7 +389,12 @@ def _read_binary_list(buffer, count_dtype, data_dtype, num_cells, endianness):
     return byte_starts_ends[-1], blocks
 
 
+def _native(a):
+    return a.astype(a.dtype.newbyteorder("="), copy=False)
+
+
 def write(filename, mesh: Mesh, binary: bool = True):  # noqa: C901
+    points = _native(mesh.points)
 
     with open_file(filename, "wb") as fh:
         fh.write(b"ply\n")
@@ -425,7 +430,7 @@ def write(filename, mesh: Mesh, binary: bool = True):  # noqa: C901
             np.dtype(np.float64): "double",
         }
         for k in range(mesh.points.shape[1]):
-            type_name = type_name_table[mesh.points.dtype]
+            type_name = type_name_table[points.dtype]
             fh.write(f"property {type_name} {dim_names[k]}\n".encode())
 
         pd = []
@@ -436,11 +441,12 @@ def write(filename, mesh: Mesh, binary: bool = True):  # noqa: C901
                     f"Skipping {key}."
                 )
                 continue
+            value = _native(value)
             type_name = type_name_table[value.dtype]
             fh.write(f"property {type_name} {key}\n".encode())
             pd.append(value)
 
-        cells = list(mesh.cells)
+        cells = [CellBlock(c.type, _native(c.data)) for c in mesh.cells]
         num_cells = 0
         legal_cell_types = ["vertex", "line", "triangle", "quad", "polygon"]
         for cell_block in mesh.cells:
@@ -479,7 +485,7 @@ def write(filename, mesh: Mesh, binary: bool = True):  # noqa: C901
 
         if binary:
             # points and point_data
-            out = np.rec.fromarrays([coord for coord in mesh.points.T] + pd)
+            out = np.rec.fromarrays([coord for coord in points.T] + pd)
             fh.write(out.tobytes())
 
             # cells
@@ -500,7 +506,7 @@ def write(filename, mesh: Mesh, binary: bool = True):  # noqa: C901
             # vertices
             # np.savetxt(fh, mesh.points, "%r")  # slower
             # out = np.column_stack([mesh.points] + list(mesh.point_data.values()))
-            out = np.rec.fromarrays([coord for coord in mesh.points.T] + pd)
+            out = np.rec.fromarrays([coord for coord in points.T] + pd)
             fmt = " ".join(["{}"] * len(out[0]))
             out = "\n".join([fmt.format(*row) for row in out]) + "\n"
             fh.write(out.encode())
-- 
2.43.0


From b41bd9eefc99f2fc016637f808a7f3a0006c0a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:25 +0000
Subject: [PATCH 092/160] fix: MED component names stay with their arrays

The reader listed them in the order of the fields in the file, the writer assigned
them in the order of the point and cell data. They were attached to other fields,
or the write failed with an IndexError.
---
 src/meshio/med/_med.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/meshio/med/_med.py b/src/meshio/med/_med.py
index df3e9ea..44e719e 100644
--- a/src/meshio/med/_med.py
+++ b/src/meshio/med/_med.py
@@ -121,11 +121,9 @@ def read(filename):
 
 
 def _read_data(fields, profiles, cell_types, point_data, cell_data, field_data):
+    component_names = {}
     for name, data in fields.items():
-        if "NOM" in data.attrs:
-            if "med:nom" not in field_data:
-                field_data["med:nom"] = []
-            field_data["med:nom"].append(data.attrs["NOM"].decode().split())
+        nom = data.attrs["NOM"].decode().split() if "NOM" in data.attrs else None
 
         time_step = sorted(data.keys())  # associated time-steps
         if len(time_step) == 1:  # single time-step
@@ -140,6 +138,8 @@ def _read_data(fields, profiles, cell_types, point_data, cell_data, field_data):
         for i, key in enumerate(time_step):
             med_data = data[key]  # at a particular time step
             name = names[i]
+            if nom is not None:
+                component_names[name] = nom
             for supp in med_data:
                 if supp == "NOE":  # continuous nodal (NOEU) data
                     point_data[name] = _read_nodal_data(med_data, profiles)
@@ -153,6 +153,15 @@ def _read_data(fields, profiles, cell_types, point_data, cell_data, field_data):
                         med_data[supp], profiles
                     )
 
+    # one list of component names for each array, in the order in which the arrays are
+    # written
+    if component_names:
+        field_data["med:nom"] = [
+            component_names.get(name, [])
+            for name in [*point_data, *cell_data]
+            if name not in ["point_tags", "cell_tags"]
+        ]
+
 
 def _read_nodal_data(med_data, profiles):
     profile = med_data["NOE"].attrs["PFL"]
@@ -321,6 +330,11 @@ def _write(f, mesh):
 
     name_idx = 0
     field_names = mesh.field_data["med:nom"] if "med:nom" in mesh.field_data else []
+    num_arrays = len(mesh.point_data) + len(mesh.cell_data)
+    num_arrays -= "point_tags" in mesh.point_data
+    num_arrays -= "cell_tags" in mesh.cell_data
+    if len(field_names) != num_arrays:
+        field_names = []
 
     # Nodal data
     for name, data in mesh.point_data.items():
-- 
2.43.0


From 3d3df86de0a43fce211f615ba0e2eee2f5308c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:35 +0000
Subject: [PATCH 093/160] fix: the Netgen writer accepts meshes read from MED
 and indices stored as floats

---
 src/meshio/netgen/_netgen.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/meshio/netgen/_netgen.py b/src/meshio/netgen/_netgen.py
index a57a665..46fe841 100644
--- a/src/meshio/netgen/_netgen.py
+++ b/src/meshio/netgen/_netgen.py
@@ -209,7 +209,7 @@ def _write_codim_domain_data(f, mesh, cells_index, dim, codim):
     # assume format as read from gmsh 4.1 files
     data = {}
     for name, val in mesh.field_data.items():
-        if val[1] == dim - codim:
+        if len(val) == 2 and np.all(val[1] == dim - codim):
             data[val[0]] = name
 
     # set generic default names (is this appropriate/useful?)
@@ -378,12 +378,15 @@ def write_buffer(f, mesh, float_fmt):
     # store the name of the data; when reading, it will always be "netgen:index".
     # See also <https://github.com/nschloe/meshio/issues/1199>.
     if "netgen:index" in mesh.cell_data:
-        cells_index = mesh.cell_data["netgen:index"]
+        # other formats may have stored it as floats
+        cells_index = [
+            np.asarray(values).astype(int) for values in mesh.cell_data["netgen:index"]
+        ]
     else:
         # any other integer cell data?
         cells_index = None
         for values in mesh.cell_data.values():
-            if np.issubdtype(values[0].dtype, np.integer):
+            if np.issubdtype(values[0].dtype, np.integer) and values[0].ndim == 1:
                 cells_index = values
                 break
 
-- 
2.43.0


From 60d5afda55ac949d6a03a4a4c01b4a1109235026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:42 +0000
Subject: [PATCH 094/160] fix: the MSH 4.1 writer accepts entity tags that went
 through other formats

---
 src/meshio/gmsh/_gmsh41.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/meshio/gmsh/_gmsh41.py b/src/meshio/gmsh/_gmsh41.py
index 436f279..5402bd3 100644
--- a/src/meshio/gmsh/_gmsh41.py
+++ b/src/meshio/gmsh/_gmsh41.py
@@ -308,9 +308,13 @@ def write(filename, mesh, float_fmt=".16e", binary=True):
     <http://gmsh.info/doc/texinfo/gmsh.html#MSH-file-format>.
     """
     # Filter the point data: gmsh:dim_tags are tags, the rest is actual point data.
+    # Other formats may have padded the tags to three columns or stored them as floats.
     point_data = {}
+    point_tags = {}
     for key, d in mesh.point_data.items():
-        if key not in ["gmsh:dim_tags"]:
+        if key in ["gmsh:dim_tags"]:
+            point_tags[key] = np.asarray(d)[:, :2].astype(int)
+        else:
             point_data[key] = d
 
     # Split the cell data: gmsh:physical and gmsh:geometrical are tags, the rest is
@@ -319,7 +323,7 @@ def write(filename, mesh, float_fmt=".16e", binary=True):
     cell_data = {}
     for key, d in mesh.cell_data.items():
         if key in ["gmsh:physical", "gmsh:geometrical", "cell_tags"]:
-            tag_data[key] = d
+            tag_data[key] = [np.asarray(block).astype(int) for block in d]
         else:
             cell_data[key] = d
 
@@ -336,10 +340,8 @@ def write(filename, mesh, float_fmt=".16e", binary=True):
         if mesh.field_data:
             _write_physical_names(fh, mesh.field_data)
 
-        _write_entities(
-            fh, mesh.cells, tag_data, mesh.cell_sets, mesh.point_data, binary
-        )
-        _write_nodes(fh, mesh.points, mesh.cells, mesh.point_data, float_fmt, binary)
+        _write_entities(fh, mesh.cells, tag_data, mesh.cell_sets, point_tags, binary)
+        _write_nodes(fh, mesh.points, mesh.cells, point_tags, float_fmt, binary)
         _write_elements(fh, mesh.cells, tag_data, binary)
         if mesh.gmsh_periodic is not None:
             _write_periodic(fh, mesh.gmsh_periodic, float_fmt, binary)
@@ -401,7 +403,7 @@ def _write_entities(fh, cells, tag_data, cell_sets, point_data, binary):
     # The entities section must therefore be built on the node-entities, if
     # these are available. If this is not the case, we leave this section blank.
     # TODO: Should this give a warning?
-    if "gmsh:dim_tags" not in point_data:
+    if "gmsh:dim_tags" not in point_data or "gmsh:geometrical" not in tag_data:
         return
 
     fh.write(b"$Entities\n")
-- 
2.43.0


From b6a94b57e0926a52cbd2c3b98623cc35c8c245da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:32 +0000
Subject: [PATCH 095/160] fix: Abaqus sets with padded members, node sets of
 node sets, and node sets given in parts

---
 src/meshio/abaqus/_abaqus.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/meshio/abaqus/_abaqus.py b/src/meshio/abaqus/_abaqus.py
index 9981ea1..1dfefb0 100644
--- a/src/meshio/abaqus/_abaqus.py
+++ b/src/meshio/abaqus/_abaqus.py
@@ -153,11 +153,16 @@ def read_buffer(f):
                 cell_sets_raw.setdefault(name, {})[len(cells) - 1] = list(members)
         elif keyword == "NSET":
             params_map = get_param_map(line, required_keys=["NSET"])
-            set_ids, _, line = _read_set(f, params_map)
+            set_ids, set_names, line = _read_set(f, params_map)
             name = params_map["NSET"]
-            point_sets[name] = np.array(
-                [point_ids[point_id] for point_id in set_ids], dtype="int32"
-            )
+            # Several NSET sections with the same name add to the same set
+            members = list(point_sets.get(name, []))
+            members += [point_ids[point_id] for point_id in set_ids]
+            for set_name in set_names:
+                if set_name not in point_sets:
+                    raise ReadError(f"Unknown point set '{set_name}'")
+                members += list(point_sets[set_name])
+            point_sets[name] = np.array(members, dtype="int32")
         elif keyword == "ELSET":
             params_map = get_param_map(line, required_keys=["ELSET"])
             set_ids, set_names, line = _read_set(f, params_map)
@@ -378,11 +383,11 @@ def _read_set(f, params_map):
         if line.strip() == "":
             continue
 
-        line = line.strip().strip(",").split(",")
+        line = [item.strip() for item in line.strip().strip(",").split(",")]
         if line[0].isnumeric():
             set_ids += [int(k) for k in line]
         else:
-            set_names.append(line[0])
+            set_names += line
 
     set_ids = np.array(set_ids, dtype="int32")
     if "GENERATE" in params_map:
-- 
2.43.0


From 6789acc5508e4177f3f30008b53d2032cb6e387c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:07 +0000
Subject: [PATCH 096/160] fix: the PERMAS reader keeps the nodes after a
 comment and accepts any spacing

---
 src/meshio/permas/_permas.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/meshio/permas/_permas.py b/src/meshio/permas/_permas.py
index 7a0ffbf..09bef49 100644
--- a/src/meshio/permas/_permas.py
+++ b/src/meshio/permas/_permas.py
@@ -127,11 +127,11 @@ def _read_nodes(f):
     while True:
         last_pos = f.tell()
         line = f.readline()
-        if line.startswith("!"):
-            break
         if line.startswith("$") or line == "":
             break
-        entries = line.strip().split(" ")
+        if line.startswith("!") or line.strip() == "":
+            continue
+        entries = line.split()
         gid, x = entries[0], entries[1:]
         point_gids[int(gid)] = index
         points.append([float(xx) for xx in x])
@@ -156,9 +156,11 @@ def _read_cells(f, line0, point_gids):
         line = f.readline()
         if line.startswith("$") or line == "":
             break
+        if line.startswith("!") or line.strip() == "":
+            continue
         line = line.strip()
         # the first item is just a running index
-        idx += [point_gids[int(k)] for k in filter(None, line.split(" ")[1:])]
+        idx += [point_gids[int(k)] for k in line.split()[1:]]
         if not line.endswith("!"):
             cells.append(idx)
             idx = []
-- 
2.43.0


From 91d1543e12faacbd397914997dbeeddbd544ba9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:10 +0000
Subject: [PATCH 097/160] fix: the MDPA reader respects the numbers of the
 nodes

---
 src/meshio/mdpa/_mdpa.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/meshio/mdpa/_mdpa.py b/src/meshio/mdpa/_mdpa.py
index 6aa8500..4b22f48 100644
--- a/src/meshio/mdpa/_mdpa.py
+++ b/src/meshio/mdpa/_mdpa.py
@@ -120,12 +120,13 @@ def _read_nodes(f, is_ascii, data_size):
 
     points = np.fromfile(f, count=num_nodes * 4, sep=" ").reshape((num_nodes, 4))
     # The first number is the index
+    point_ids = points[:, 0].astype(int)
     points = points[:, 1:]
 
     line = f.readline().decode()
     if line.strip() != "End Nodes":
         raise ReadError()
-    return points
+    return points, point_ids
 
 
 def _read_cells(f, cells, is_ascii, cell_tags, environ=None):
@@ -310,12 +311,20 @@ def read_buffer(f):
         environ = line.strip()
 
         if environ.startswith("Begin Nodes"):
-            points = _read_nodes(f, is_ascii, data_size)
+            points, point_ids = _read_nodes(f, is_ascii, data_size)
         elif environ.startswith("Begin Elements") or environ.startswith(
             "Begin Conditions"
         ):
             _read_cells(f, cells, is_ascii, cell_tags, environ)
 
+    # The nodes need not be numbered consecutively
+    if len(points) > 0 and not np.array_equal(point_ids, np.arange(1, len(points) + 1)):
+        index = {point_id: k for k, point_id in enumerate(point_ids)}
+        cells = [
+            (t, [np.array([index[k + 1] for k in row]) for row in rows])
+            for t, rows in cells
+        ]
+
     # We finally prepare the cells
     has_additional_tag_data = _prepare_cells(cells, cell_tags)
 
-- 
2.43.0


From ec524e5f9dbf3fa038ad93a1bfcb265226a99e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:36 +0000
Subject: [PATCH 098/160] fix: the ANSYS reader accepts data that begin on a
 line after the opening bracket

---
 src/meshio/ansys/_ansys.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/meshio/ansys/_ansys.py b/src/meshio/ansys/_ansys.py
index a49bc63..0ac87e6 100644
--- a/src/meshio/ansys/_ansys.py
+++ b/src/meshio/ansys/_ansys.py
@@ -35,6 +35,16 @@ def _skip_close(f, num_open_brackets):
             num_open_brackets -= 1
 
 
+def _read_data_line(f):
+    # skip ahead to the first line with data
+    line = ""
+    while line.strip() == "":
+        line = f.readline().decode()
+        if not line:
+            raise ReadError("Unexpected end of file")
+    return line.split()
+
+
 def _read_points(f, line, first_point_index_overall, last_point_index):
     # If the line is self-contained, it is merely a declaration
     # of the total number of points.
@@ -162,8 +172,7 @@ def _read_cells(f, line):
             # ASCII cells
             data = np.empty((num_cells, num_nodes_per_cell), dtype=int)
             for k in range(num_cells):
-                line = f.readline().decode()
-                dat = line.split()
+                dat = _read_data_line(f)
                 if len(dat) != num_nodes_per_cell:
                     raise ReadError()
                 data[k] = [int(d, 16) for d in dat]
@@ -261,8 +270,7 @@ def _read_faces(f, line):
             # read cell data
             data = np.empty((num_cells, num_nodes_per_cell), dtype=int)
             for k in range(num_cells):
-                line = f.readline().decode()
-                dat = line.split()
+                dat = _read_data_line(f)
                 # The body of a regular face section contains the grid connectivity, and
                 # each line appears as follows:
                 #   n0 n1 n2 cr cl
-- 
2.43.0


From 258d3bc25adb8f5e2f72ade3360418d219bb47e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:09 +0000
Subject: [PATCH 099/160] fix: data and periodic links of Gmsh files refer to
 nodes and elements by their tags

---
 src/meshio/gmsh/_gmsh22.py | 35 +++++++++++++++++++++++------------
 src/meshio/gmsh/_gmsh40.py | 25 +++++++++++++++++--------
 src/meshio/gmsh/_gmsh41.py | 11 +++++++----
 src/meshio/gmsh/common.py  | 16 +++++++---------
 4 files changed, 54 insertions(+), 33 deletions(-)

diff --git a/src/meshio/gmsh/_gmsh22.py b/src/meshio/gmsh/_gmsh22.py
index 1a9d4b4..77d5316 100644
--- a/src/meshio/gmsh/_gmsh22.py
+++ b/src/meshio/gmsh/_gmsh22.py
@@ -57,15 +57,17 @@ def read_buffer(f, is_ascii, data_size):
         elif environ == "Nodes":
             points, point_tags = _read_nodes(f, is_ascii)
         elif environ == "Elements":
-            has_additional_tag_data, cell_tags = _read_cells(
+            has_additional_tag_data, cell_tags, element_tags = _read_cells(
                 f, cells, point_tags, is_ascii
             )
         elif environ == "Periodic":
-            periodic = _read_periodic(f)
+            periodic = _read_periodic(f, point_tags)
         elif environ == "NodeData":
-            _read_data(f, "NodeData", point_data, data_size, is_ascii)
+            _read_data(f, "NodeData", point_data, data_size, is_ascii, point_tags)
         elif environ == "ElementData":
-            _read_data(f, "ElementData", cell_data_raw, data_size, is_ascii)
+            _read_data(
+                f, "ElementData", cell_data_raw, data_size, is_ascii, element_tags
+            )
         else:
             _fast_forward_to_end_block(f, environ)
 
@@ -110,8 +112,6 @@ def _read_nodes(f, is_ascii):
         # binary
         dtype = [("index", c_int), ("x", c_double, (3,))]
         data = np.fromfile(f, count=num_nodes, dtype=dtype)
-        if not (data["index"] == range(1, num_nodes + 1)).all():
-            raise ReadError()
         points = np.ascontiguousarray(data["x"])
         point_tags = data["index"]
 
@@ -126,9 +126,9 @@ def _read_cells(f, cells, point_tags, is_ascii):
     has_additional_tag_data = False
     cell_tags = {}
     if is_ascii:
-        _read_cells_ascii(f, cells, cell_tags, total_num_cells)
+        element_tags = _read_cells_ascii(f, cells, cell_tags, total_num_cells)
     else:
-        _read_cells_binary(f, cells, cell_tags, total_num_cells)
+        element_tags = _read_cells_binary(f, cells, cell_tags, total_num_cells)
 
     # override cells in-place
     cells[:] = [(key, _gmsh_to_meshio_order(key, values)) for key, values in cells]
@@ -165,13 +165,15 @@ def _read_cells(f, cells, point_tags, is_ascii):
                 output_cell_tags["gmsh:geometrical"] = {}
             output_cell_tags["gmsh:geometrical"][cell_type] = geometrical
 
-    return has_additional_tag_data, output_cell_tags
+    return has_additional_tag_data, output_cell_tags, element_tags
 
 
-def _read_cells_ascii(f, cells, cell_tags, total_num_cells: int) -> None:
+def _read_cells_ascii(f, cells, cell_tags, total_num_cells: int) -> list[int]:
+    element_tags = []
     for _ in range(total_num_cells):
         line = f.readline().decode()
         data = [int(k) for k in filter(None, line.split())]
+        element_tags.append(data[0])
         t = _gmsh_to_meshio_type[data[1]]
         num_nodes_per_elem = num_nodes_per_cell[t]
 
@@ -202,10 +204,12 @@ def _read_cells_ascii(f, cells, cell_tags, total_num_cells: int) -> None:
         cells[k] = (c[0], np.array(c[1], dtype=c_int) - 1)
     # Cannot convert cell_tags[key] to numpy array: There may be a different number of
     # tags for each cell.
+    return element_tags
 
 
 def _read_cells_binary(f, cells, cell_tags, total_num_cells):
     num_elems = 0
+    element_tags = []
     while num_elems < total_num_cells:
         # read element header
         elem_type, num_elems0, num_tags = np.fromfile(f, count=3, dtype=c_int)
@@ -216,6 +220,7 @@ def _read_cells_binary(f, cells, cell_tags, total_num_cells):
         shape = (num_elems0, 1 + num_tags + num_nodes_per_elem)
         count = shape[0] * shape[1]
         data = np.fromfile(f, count=count, dtype=c_int).reshape(shape)
+        element_tags.extend(data[:, 0])
 
         if len(cells) == 0 or t != cells[-1][0]:
             cells.append((t, []))
@@ -234,9 +239,15 @@ def _read_cells_binary(f, cells, cell_tags, total_num_cells):
     # collect cell tags
     for key in cell_tags:
         cell_tags[key] = np.vstack(cell_tags[key])
+    return element_tags
+
 
+def _read_periodic(f, point_tags):
+    # The links refer to the nodes by their tags
+    point_tags = np.asarray(point_tags, dtype=np.int32)
+    remap = -np.ones(np.max(point_tags) + 1, dtype=c_int)
+    remap[point_tags] = np.arange(len(point_tags))
 
-def _read_periodic(f):
     periodic = []
     num_periodic = int(f.readline().decode())
     for _ in range(num_periodic):
@@ -256,7 +267,7 @@ def _read_periodic(f):
             snode, mnode = (int(s) for s in line.split())
             slave_master.append([snode, mnode])
         slave_master = np.array(slave_master, dtype=c_int).reshape(-1, 2)
-        slave_master -= 1  # Subtract one, Python is 0-based
+        slave_master = remap[slave_master]
         periodic.append([edim, (stag, mtag), affine, slave_master])
     _fast_forward_to_end_block(f, "Periodic")
     return periodic
diff --git a/src/meshio/gmsh/_gmsh40.py b/src/meshio/gmsh/_gmsh40.py
index d6bf1e4..6d81b5c 100644
--- a/src/meshio/gmsh/_gmsh40.py
+++ b/src/meshio/gmsh/_gmsh40.py
@@ -55,13 +55,17 @@ def read_buffer(f, is_ascii: bool, data_size) -> Mesh:
         elif environ == "Nodes":
             points, point_tags = _read_nodes(f, is_ascii)
         elif environ == "Elements":
-            cells, cell_tags = _read_elements(f, point_tags, physical_tags, is_ascii)
+            cells, cell_tags, element_tags = _read_elements(
+                f, point_tags, physical_tags, is_ascii
+            )
         elif environ == "Periodic":
-            periodic = _read_periodic(f, is_ascii)
+            periodic = _read_periodic(f, point_tags, is_ascii)
         elif environ == "NodeData":
-            _read_data(f, "NodeData", point_data, data_size, is_ascii)
+            _read_data(f, "NodeData", point_data, data_size, is_ascii, point_tags)
         elif environ == "ElementData":
-            _read_data(f, "ElementData", cell_data_raw, data_size, is_ascii)
+            _read_data(
+                f, "ElementData", cell_data_raw, data_size, is_ascii, element_tags
+            )
         else:
             # From
             # <http://gmsh.info//doc/texinfo/gmsh.html#MSH-file-format-_0028version-4_0029>:
@@ -183,7 +187,8 @@ def _read_elements(f, point_tags, physical_tags, is_ascii):
     itags = -np.ones(m, dtype=int)
     itags[point_tags] = np.arange(len(point_tags))
 
-    # Note that the first column in the data array is the element tag; discard it.
+    # Note that the first column in the data array is the element tag.
+    element_tags = np.concatenate([d[:, 0] for *_, d in data] or [[]])
     data = [
         (physical_tag, geom_tag, tpe, itags[d[:, 1:]])
         for physical_tag, geom_tag, tpe, d in data
@@ -206,10 +211,14 @@ def _read_elements(f, point_tags, physical_tags, is_ascii):
             cell_data["gmsh:geometrical"] = []
         cell_data["gmsh:geometrical"].append(np.full(len(values), geom_tag, int))
 
-    return cells, cell_data
+    return cells, cell_data, element_tags
 
 
-def _read_periodic(f, is_ascii):
+def _read_periodic(f, point_tags, is_ascii):
+    # The links refer to the nodes by their tags
+    itags = -np.ones(np.max(point_tags) + 1, dtype=int)
+    itags[point_tags] = np.arange(len(point_tags))
+
     fromfile = partial(np.fromfile, sep=" " if is_ascii else "")
     periodic = []
     num_periodic = int(fromfile(f, c_int, 1)[0])
@@ -232,7 +241,7 @@ def _read_periodic(f, is_ascii):
             else:
                 affine = None
         slave_master = fromfile(f, c_int, num_nodes * 2).reshape(-1, 2)
-        slave_master = slave_master - 1  # Subtract one, Python is 0-based
+        slave_master = itags[slave_master]
         periodic.append([edim, (stag, mtag), affine, slave_master])
 
     _fast_forward_to_end_block(f, "Periodic")
diff --git a/src/meshio/gmsh/_gmsh41.py b/src/meshio/gmsh/_gmsh41.py
index 5402bd3..6eba856 100644
--- a/src/meshio/gmsh/_gmsh41.py
+++ b/src/meshio/gmsh/_gmsh41.py
@@ -67,7 +67,7 @@ def read_buffer(f, is_ascii: bool, data_size):
         elif environ == "Nodes":
             points, point_tags, point_entities = _read_nodes(f, is_ascii, data_size)
         elif environ == "Elements":
-            cells, cell_tags, cell_sets = _read_elements(
+            cells, cell_tags, cell_sets, element_tags = _read_elements(
                 f,
                 point_tags,
                 physical_tags,
@@ -83,7 +83,9 @@ def read_buffer(f, is_ascii: bool, data_size):
                 f, "NodeData", point_data, data_size, is_ascii, point_tags + 1
             )
         elif environ == "ElementData":
-            _read_data(f, "ElementData", cell_data_raw, data_size, is_ascii)
+            _read_data(
+                f, "ElementData", cell_data_raw, data_size, is_ascii, element_tags
+            )
         else:
             # From
             # <http://gmsh.info/doc/texinfo/gmsh.html#MSH-file-format>:
@@ -244,7 +246,8 @@ def _read_elements(
     inv_tags = np.full(np.max(point_tags) + 1, -1, dtype=int)
     inv_tags[point_tags] = np.arange(len(point_tags))
 
-    # Note that the first column in the data array is the element tag; discard it.
+    # Note that the first column in the data array is the element tag.
+    element_tags = np.concatenate([d[:, 0] for *_, d in data] or [[]])
     data = [
         (physical_tag, bound_entity, geom_tag, tpe, inv_tags[d[:, 1:] - 1])
         for physical_tag, bound_entity, geom_tag, tpe, d in data
@@ -272,7 +275,7 @@ def _read_elements(
                 cell_sets["gmsh:bounding_entities"] = []
             cell_sets["gmsh:bounding_entities"].append(bound_entity)
 
-    return cells, cell_data, cell_sets
+    return cells, cell_data, cell_sets, element_tags
 
 
 def _read_periodic(f, point_tags, is_ascii, data_size):
diff --git a/src/meshio/gmsh/common.py b/src/meshio/gmsh/common.py
index e102784..2cff63e 100644
--- a/src/meshio/gmsh/common.py
+++ b/src/meshio/gmsh/common.py
@@ -50,7 +50,7 @@ def _read_physical_names(f, field_data):
     _fast_forward_to_end_block(f, "PhysicalNames")
 
 
-def _read_data(f, tag, data_dict, data_size, is_ascii, point_tags=None):
+def _read_data(f, tag, data_dict, data_size, is_ascii, item_tags):
     # Read string tags
     num_string_tags = int(f.readline().decode())
     string_tags = [
@@ -77,18 +77,16 @@ def _read_data(f, tag, data_dict, data_size, is_ascii, point_tags=None):
         dtype = [("index", c_int), ("values", c_double, (num_components,))]
         data = np.fromfile(f, count=num_items, dtype=dtype)
         index = data["index"]
-        if point_tags is None and not (index == range(1, num_items + 1)).all():
-            raise ReadError()
         data = np.ascontiguousarray(data["values"])
 
     _fast_forward_to_end_block(f, tag)
 
-    # The data refers to the nodes by their tags. Arrange it like the points.
-    if point_tags is not None:
-        order = np.argsort(index)
-        if not np.array_equal(index[order], np.sort(point_tags)):
-            raise ReadError(f"{tag} does not match the nodes of the mesh.")
-        data = data[order[np.searchsorted(index, point_tags, sorter=order)]]
+    # The data refers to the nodes or elements by their tags. Arrange it like the points
+    # or cells.
+    order = np.argsort(index, kind="stable")
+    if not np.array_equal(index[order], np.sort(item_tags)):
+        raise ReadError(f"{tag} does not match the nodes or elements of the mesh.")
+    data = data[order[np.searchsorted(index, item_tags, sorter=order)]]
 
     # The gmsh format cannot distinguish between data of shape (n,) and (n, 1).
     # If shape[1] == 1, cut it off.
-- 
2.43.0


From 882c59d16cb6f2f394d57c77913fbc785bb4f6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:09 +0000
Subject: [PATCH 100/160] fix: the MSH 4.0 reader skips blank lines between
 sections

---
 src/meshio/gmsh/_gmsh40.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/meshio/gmsh/_gmsh40.py b/src/meshio/gmsh/_gmsh40.py
index 6d81b5c..7135c76 100644
--- a/src/meshio/gmsh/_gmsh40.py
+++ b/src/meshio/gmsh/_gmsh40.py
@@ -13,6 +13,7 @@ from .._common import cell_data_from_raw, num_nodes_per_cell, raw_from_cell_data
 from .._exceptions import ReadError
 from .._mesh import CellBlock, Mesh
 from .common import (
+    _fast_forward_over_blank_lines,
     _fast_forward_to_end_block,
     _gmsh_to_meshio_order,
     _gmsh_to_meshio_type,
@@ -40,12 +41,14 @@ def read_buffer(f, is_ascii: bool, data_size) -> Mesh:
     physical_tags = None
     periodic = None
     while True:
-        line = f.readline().decode()
-        if not line:
-            # EOF
+        # fast-forward over blank lines
+        line, is_eof = _fast_forward_over_blank_lines(f)
+        if is_eof:
             break
+
         if line[0] != "$":
-            raise ReadError
+            raise ReadError(f"Unexpected line {repr(line)}")
+
         environ = line[1:].strip()
 
         if environ == "PhysicalNames":
-- 
2.43.0


From 403f872998baf8daf742f3c36ea217b70f475392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:38 +0000
Subject: [PATCH 101/160] fix: MSH 2.2 elements with different numbers of tags

---
 src/meshio/gmsh/_gmsh22.py | 36 +++++++++++-------------------------
 1 file changed, 11 insertions(+), 25 deletions(-)

diff --git a/src/meshio/gmsh/_gmsh22.py b/src/meshio/gmsh/_gmsh22.py
index 77d5316..a9399ad 100644
--- a/src/meshio/gmsh/_gmsh22.py
+++ b/src/meshio/gmsh/_gmsh22.py
@@ -123,7 +123,6 @@ def _read_cells(f, cells, point_tags, is_ascii):
     # The first line is the number of elements
     line = f.readline().decode()
     total_num_cells = int(line)
-    has_additional_tag_data = False
     cell_tags = {}
     if is_ascii:
         element_tags = _read_cells_ascii(f, cells, cell_tags, total_num_cells)
@@ -143,27 +142,17 @@ def _read_cells(f, cells, point_tags, is_ascii):
     _fast_forward_to_end_block(f, "Elements")
 
     # restrict to the standard two data items (physical, geometrical)
+    # A missing tag is equivalent to a zero tag
+    max_num_tags = max((len(item) for t in cell_tags.values() for item in t), default=0)
+    has_additional_tag_data = max_num_tags > 2
     output_cell_tags = {}
-    for cell_type in cell_tags:
-        physical = []
-        geometrical = []
-        for item in cell_tags[cell_type]:
-            if len(item) > 0:
-                physical.append(item[0])
-            if len(item) > 1:
-                geometrical.append(item[1])
-            if len(item) > 2:
-                has_additional_tag_data = True
-        physical = np.array(physical, dtype=c_int)
-        geometrical = np.array(geometrical, dtype=c_int)
-        if len(physical) > 0:
-            if "gmsh:physical" not in output_cell_tags:
-                output_cell_tags["gmsh:physical"] = {}
-            output_cell_tags["gmsh:physical"][cell_type] = physical
-        if len(geometrical) > 0:
-            if "gmsh:geometrical" not in output_cell_tags:
-                output_cell_tags["gmsh:geometrical"] = {}
-            output_cell_tags["gmsh:geometrical"][cell_type] = geometrical
+    for k, name in enumerate(["gmsh:physical", "gmsh:geometrical"][:max_num_tags]):
+        output_cell_tags[name] = {
+            cell_type: np.array(
+                [item[k] if len(item) > k else 0 for item in tags], dtype=c_int
+            )
+            for cell_type, tags in cell_tags.items()
+        }
 
     return has_additional_tag_data, output_cell_tags, element_tags
 
@@ -228,7 +217,7 @@ def _read_cells_binary(f, cells, cell_tags, total_num_cells):
 
         if t not in cell_tags:
             cell_tags[t] = []
-        cell_tags[t].append(data[:, 1 : num_tags + 1])
+        cell_tags[t].extend(data[:, 1 : num_tags + 1])
 
         num_elems += num_elems0
 
@@ -236,9 +225,6 @@ def _read_cells_binary(f, cells, cell_tags, total_num_cells):
     for k, c in enumerate(cells):
         cells[k] = (c[0], np.vstack(c[1]) - 1)
 
-    # collect cell tags
-    for key in cell_tags:
-        cell_tags[key] = np.vstack(cell_tags[key])
     return element_tags
 
 
-- 
2.43.0


From f513b3030b5a6e3d28669dddb74739f9a749c8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:55 +0000
Subject: [PATCH 102/160] fix: structured datasets in VTK 5.1 files

---
 src/meshio/vtk/_vtk_51.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/meshio/vtk/_vtk_51.py b/src/meshio/vtk/_vtk_51.py
index 9bc8529..008e826 100644
--- a/src/meshio/vtk/_vtk_51.py
+++ b/src/meshio/vtk/_vtk_51.py
@@ -250,7 +250,9 @@ def _check_mesh(info):
             for i in range(3)
         ]
         info.points = _generate_points(axis)
-        info.connectivity, info.types = _generate_cells(dim=info.dataset["DIMENSIONS"])
+        info.connectivity, info.offsets, info.types = _generate_cells(
+            dim=info.dataset["DIMENSIONS"]
+        )
     elif info.dataset["type"] == "RECTILINEAR_GRID":
         axis = [
             info.dataset["X_COORDINATES"],
@@ -258,9 +260,13 @@ def _check_mesh(info):
             info.dataset["Z_COORDINATES"],
         ]
         info.points = _generate_points(axis)
-        info.connectivity, info.types = _generate_cells(dim=info.dataset["DIMENSIONS"])
+        info.connectivity, info.offsets, info.types = _generate_cells(
+            dim=info.dataset["DIMENSIONS"]
+        )
     elif info.dataset["type"] == "STRUCTURED_GRID":
-        info.connectivity, info.types = _generate_cells(dim=info.dataset["DIMENSIONS"])
+        info.connectivity, info.offsets, info.types = _generate_cells(
+            dim=info.dataset["DIMENSIONS"]
+        )
 
 
 def _generate_cells(dim):
@@ -305,7 +311,9 @@ def _generate_cells(dim):
         cells[:, 8] = cells[:, 7] - 1
         cell_types = np.full(ele_no, 12, dtype=int)
 
-    return cells.reshape(-1), cell_types
+    num_nodes = cells.shape[1] - 1
+    offsets = num_nodes * np.arange(1, ele_no + 1)
+    return cells[:, 1:].reshape(-1), offsets, cell_types
 
 
 def _generate_points(axis):
-- 
2.43.0


From 1b5c94bd52ba4f57e04bfe9c24efb49a15001b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:55 +0000
Subject: [PATCH 103/160] fix: VTK 5.1 files may contain all VTK data types,
 and int has four bytes

---
 src/meshio/vtk/_vtk_42.py |  1 +
 src/meshio/vtk/_vtk_51.py | 11 ++++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/meshio/vtk/_vtk_42.py b/src/meshio/vtk/_vtk_42.py
index ae88046..84d1353 100644
--- a/src/meshio/vtk/_vtk_42.py
+++ b/src/meshio/vtk/_vtk_42.py
@@ -69,6 +69,7 @@ vtk_to_numpy_dtype_name = {
     "unsigned_short": "uint16",
     "short": "int16",
     "unsigned_int": "uint32",
+    "vtkidtype": "int32",
     "int": "int32",
     "unsigned_long": "uint64",
     "long": "int64",
diff --git a/src/meshio/vtk/_vtk_51.py b/src/meshio/vtk/_vtk_51.py
index 008e826..5347f7b 100644
--- a/src/meshio/vtk/_vtk_51.py
+++ b/src/meshio/vtk/_vtk_51.py
@@ -19,7 +19,16 @@ from .._vtk_common import (
 vtk_to_numpy_dtype_name = {
     "float": "float32",
     "double": "float64",
-    "int": "int",
+    "bit": "bool",
+    "unsigned_char": "uint8",
+    "char": "int8",
+    "unsigned_short": "uint16",
+    "short": "int16",
+    "unsigned_int": "uint32",
+    "int": "int32",
+    "unsigned_long": "uint64",
+    "long": "int64",
+    "vtkidtype": "int32",
     "vtktypeint8": "int8",
     "vtktypeint16": "int16",
     "vtktypeint32": "int32",
-- 
2.43.0


From b6c4a165f324ccdd72031342701c5100a66d7b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:55 +0000
Subject: [PATCH 104/160] fix: the VTK reader skips lookup tables and color
 scalars as a whole

---
 src/meshio/vtk/_vtk_42.py | 15 ++++++++++-----
 src/meshio/vtk/_vtk_51.py | 15 ++++++++++-----
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/meshio/vtk/_vtk_42.py b/src/meshio/vtk/_vtk_42.py
index 84d1353..c3950b6 100644
--- a/src/meshio/vtk/_vtk_42.py
+++ b/src/meshio/vtk/_vtk_42.py
@@ -208,17 +208,22 @@ def _read_section(f, info):
 
     elif info.section == "LOOKUP_TABLE":
         info.num_items = int(info.split[2])
-        np.fromfile(f, count=info.num_items * 4, sep=" ", dtype=float)
+        _skip_colors(f, info.is_ascii, info.num_items * 4)
         # rgba = data.reshape((info.num_items, 4))
 
     elif info.section == "COLOR_SCALARS":
         nValues = int(info.split[2])
         # re-use num_items from active POINT/CELL_DATA
         num_items = info.num_items
-        dtype = np.ubyte
-        if info.is_ascii:
-            dtype = float
-        np.fromfile(f, count=num_items * nValues, dtype=dtype)
+        _skip_colors(f, info.is_ascii, num_items * nValues)
+
+
+def _skip_colors(f, is_ascii, count):
+    # colors are floats in ASCII files, unsigned chars in binary files
+    if is_ascii:
+        np.fromfile(f, count=count, sep=" ", dtype=float)
+    else:
+        np.fromfile(f, count=count, dtype=np.ubyte)
 
 
 def _read_subsection(f, info):
diff --git a/src/meshio/vtk/_vtk_51.py b/src/meshio/vtk/_vtk_51.py
index 5347f7b..ebb317d 100644
--- a/src/meshio/vtk/_vtk_51.py
+++ b/src/meshio/vtk/_vtk_51.py
@@ -190,17 +190,22 @@ def _read_section(f, info):
 
     elif info.section == "LOOKUP_TABLE":
         info.num_items = int(info.split[2])
-        np.fromfile(f, count=info.num_items * 4, sep=" ", dtype=float)
+        _skip_colors(f, info.is_ascii, info.num_items * 4)
         # rgba = data.reshape((info.num_items, 4))
 
     elif info.section == "COLOR_SCALARS":
         nValues = int(info.split[2])
         # re-use num_items from active POINT/CELL_DATA
         num_items = info.num_items
-        dtype = np.ubyte
-        if info.is_ascii:
-            dtype = float
-        np.fromfile(f, count=num_items * nValues, dtype=dtype)
+        _skip_colors(f, info.is_ascii, num_items * nValues)
+
+
+def _skip_colors(f, is_ascii, count):
+    # colors are floats in ASCII files, unsigned chars in binary files
+    if is_ascii:
+        np.fromfile(f, count=count, sep=" ", dtype=float)
+    else:
+        np.fromfile(f, count=count, dtype=np.ubyte)
 
 
 def _read_subsection(f, info):
-- 
2.43.0


From 5b4cd5f5dd20797e2b7dc9654a0c7a959e5e56f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:55 +0000
Subject: [PATCH 105/160] fix: the VTK reader keeps the field data of the
 dataset

---
 src/meshio/vtk/_vtk_42.py | 2 ++
 src/meshio/vtk/_vtk_51.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/meshio/vtk/_vtk_42.py b/src/meshio/vtk/_vtk_42.py
index c3950b6..8468480 100644
--- a/src/meshio/vtk/_vtk_42.py
+++ b/src/meshio/vtk/_vtk_42.py
@@ -259,6 +259,8 @@ def _read_subsection(f, info):
     elif info.section == "TENSORS":
         d.update(_read_field(f, info.num_items, info.split, [3, 3], info.is_ascii))
     elif info.section == "FIELD":
+        if info.active == "DATASET":
+            d = info.field_data
         d.update(_read_fields(f, int(info.split[2]), info.is_ascii))
     else:
         raise ReadError(f"Unknown section '{info.section}'.")
diff --git a/src/meshio/vtk/_vtk_51.py b/src/meshio/vtk/_vtk_51.py
index ebb317d..1ca6548 100644
--- a/src/meshio/vtk/_vtk_51.py
+++ b/src/meshio/vtk/_vtk_51.py
@@ -240,6 +240,8 @@ def _read_subsection(f, info):
     elif info.section == "TENSORS":
         d.update(_read_field(f, info.num_items, info.split, [3, 3], info.is_ascii))
     elif info.section == "FIELD":
+        if info.active == "DATASET":
+            d = info.field_data
         d.update(_read_fields(f, int(info.split[2]), info.is_ascii))
     else:
         raise ReadError(f"Unknown section '{info.section}'.")
-- 
2.43.0


From 9b4481d5d599545da7b91bf45ff5c39a27374273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:35 +0000
Subject: [PATCH 106/160] fix: a lookup table in a VTK file does not change the
 size of the next array

---
 src/meshio/vtk/_vtk_42.py | 3 +--
 src/meshio/vtk/_vtk_51.py | 4 +---
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/meshio/vtk/_vtk_42.py b/src/meshio/vtk/_vtk_42.py
index 8468480..21a4a9b 100644
--- a/src/meshio/vtk/_vtk_42.py
+++ b/src/meshio/vtk/_vtk_42.py
@@ -207,8 +207,7 @@ def _read_section(f, info):
         info.num_items = int(info.split[1])
 
     elif info.section == "LOOKUP_TABLE":
-        info.num_items = int(info.split[2])
-        _skip_colors(f, info.is_ascii, info.num_items * 4)
+        _skip_colors(f, info.is_ascii, int(info.split[2]) * 4)
         # rgba = data.reshape((info.num_items, 4))
 
     elif info.section == "COLOR_SCALARS":
diff --git a/src/meshio/vtk/_vtk_51.py b/src/meshio/vtk/_vtk_51.py
index 1ca6548..f5601c0 100644
--- a/src/meshio/vtk/_vtk_51.py
+++ b/src/meshio/vtk/_vtk_51.py
@@ -19,7 +19,6 @@ from .._vtk_common import (
 vtk_to_numpy_dtype_name = {
     "float": "float32",
     "double": "float64",
-    "bit": "bool",
     "unsigned_char": "uint8",
     "char": "int8",
     "unsigned_short": "uint16",
@@ -189,8 +188,7 @@ def _read_section(f, info):
         info.num_items = int(info.split[1])
 
     elif info.section == "LOOKUP_TABLE":
-        info.num_items = int(info.split[2])
-        _skip_colors(f, info.is_ascii, info.num_items * 4)
+        _skip_colors(f, info.is_ascii, int(info.split[2]) * 4)
         # rgba = data.reshape((info.num_items, 4))
 
     elif info.section == "COLOR_SCALARS":
-- 
2.43.0


From 66b002e0d412ac7a583aba7c2f3bef70f2aabe24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:52 +0000
Subject: [PATCH 107/160] fix: face properties of PLY files

---
 src/meshio/ply/_ply.py | 112 ++++++++++++++++++++++-------------------
 1 file changed, 60 insertions(+), 52 deletions(-)

diff --git a/src/meshio/ply/_ply.py b/src/meshio/ply/_ply.py
index 8973308..ea71edd 100644
--- a/src/meshio/ply/_ply.py
+++ b/src/meshio/ply/_ply.py
@@ -4,7 +4,6 @@ I/O for the PLY format, cf.
 <https://web.archive.org/web/20161221115231/http://www.cs.virginia.edu/~gfx/Courses/2001/Advanced.spring.01/plylib/Ply.txt>.
 """
 
-import collections
 import datetime
 import re
 import sys
@@ -110,6 +109,8 @@ def read_buffer(f):
             line = _next_line(f)
         elif m_vert is not None:
             num_verts = int(m_vert.groups()[0])
+            if num_cells > 0:
+                raise ReadError("Expected the vertices before the faces.")
 
             # read point data
             line = _next_line(f)
@@ -137,7 +138,11 @@ def read_buffer(f):
                     m = re.match("property (.+) (.+)", line)
                     assert m is not None
                     cell_data_dtypes.append(m.groups()[0])
-                cell_data_names.append(m.groups()[-1])
+                name = m.groups()[-1]
+                # both names are in use
+                cell_data_names.append(
+                    "vertex_indices" if name == "vertex_index" else name
+                )
                 line = _next_line(f)
         else:
             raise ReadError(
@@ -196,54 +201,53 @@ def _read_ascii(
     verts = np.column_stack([pd[name] for name in dim_names])
 
     point_data = {name: pd[name] for name in point_data_names if name not in dim_names}
-    cell_data = {}
-
-    cell_blocks = []
-
-    for k in range(num_cells):
-        line = f.readline().decode().strip()
-        data = line.split()
-
-        if k == 0:
-            # initialize the cell data arrays
-            i = 0
-            cell_data = {}
-            for name, dtype in zip(cell_data_names, cell_dtypes):
-                if name == "vertex_indices":
-                    n = int(data[i])
-                    i += n + 1
-                else:
-                    cell_data[name] = collections.defaultdict(list)
-                    i += 1
 
+    rows = {name: [] for name in cell_data_names}
+    for _ in range(num_cells):
+        data = f.readline().decode().split()
         # go over the line
         i = 0
-        n = None
         for name, dtype in zip(cell_data_names, cell_dtypes):
-            if name == "vertex_indices":
-                idx_dtype, value_dtype = dtype
-                n = ply_to_numpy_dtype[idx_dtype](data[i])
-                dtype = ply_to_numpy_dtype[value_dtype]
-                idx = dtype(data[i + 1 : i + n + 1])
-                if len(cell_blocks) == 0 or len(cell_blocks[-1][1][-1]) != n:
-                    cell_blocks.append((cell_type_from_count(n), [idx]))
-                else:
-                    cell_blocks[-1][1].append(idx)
+            if isinstance(dtype, tuple):
+                n = int(data[i])
+                row = np.array(data[i + 1 : i + n + 1])
+                if len(row) != n:
+                    raise ReadError(f"Expected {n} items in {name}.")
+                rows[name].append(row.astype(ply_to_numpy_dtype[dtype[1]]))
                 i += n + 1
             else:
-                dtype = ply_to_numpy_dtype[dtype]
-                # use n from vertex_indices
-                assert n is not None
-                cell_data[name][n] += [dtype(data[j]) for j in range(i, i + 1)]
+                rows[name].append(ply_to_numpy_dtype[dtype](data[i]))
                 i += 1
 
-    cell_data = {
-        key: [np.array(v) for v in value.values()] for key, value in cell_data.items()
-    }
+    cell_blocks, cell_data = _blocks_from_rows(rows)
 
     return Mesh(verts, cell_blocks, point_data=point_data, cell_data=cell_data)
 
 
+def _blocks_from_rows(rows):
+    """Cell blocks (one for each change in the number of nodes) and cell data from the
+    properties of the individual faces."""
+    faces = rows.pop("vertex_indices", [])
+    sizes = np.array([len(face) for face in faces], dtype=int)
+    breaks = np.nonzero(np.diff(sizes))[0] + 1
+    bounds = [0, *breaks, len(faces)] if len(faces) > 0 else []
+
+    cells = [
+        CellBlock(cell_type_from_count(sizes[start]), np.array(faces[start:end]))
+        for start, end in zip(bounds, bounds[1:])
+    ]
+
+    cell_data = {}
+    for name, values in rows.items():
+        if len({np.shape(value) for value in values}) > 1:
+            warn(f"PLY reader doesn't support lists of varying lengths. Skipping {name}.")
+            continue
+        cell_data[name] = [
+            np.array(values[start:end]) for start, end in zip(bounds, bounds[1:])
+        ]
+    return cells, cell_data
+
+
 def _read_binary(
     f,
     endianness,
@@ -309,22 +313,26 @@ def _read_binary(
     # `bytearray()` call here redundantly copies so that the final output arrays
     # are writeable.
     buffer = memoryview(bytearray(f.read()))
-    buffer_position = 0
 
-    cell_data = {}
-    for name, dt in zip(cell_data_names, dts):
-        if isinstance(dt, tuple):
-            buffer_increment, cell_data[name] = _read_binary_list(
-                buffer[buffer_position:], dt[0], dt[1], num_cells, endianness
-            )
-        else:
-            buffer_increment = np.dtype(dt).itemsize
-            cell_data[name] = np.frombuffer(
-                buffer[buffer_position : buffer_position + buffer_increment], dtype=dt
-            )[0]
-        buffer_position += buffer_increment
+    if cell_data_names == ["vertex_indices"] and isinstance(dts[0], tuple):
+        _, cells = _read_binary_list(buffer, *dts[0], num_cells, endianness)
+        return Mesh(verts, cells, point_data=point_data)
+
+    # The properties of one face follow each other
+    rows = {name: [] for name in cell_data_names}
+    at = 0
+    for _ in range(num_cells):
+        for name, dt in zip(cell_data_names, dts):
+            if isinstance(dt, tuple):
+                n = int(np.frombuffer(buffer, dt[0], 1, at)[0])
+                at += np.dtype(dt[0]).itemsize
+                rows[name].append(np.frombuffer(buffer, dt[1], n, at))
+                at += rows[name][-1].nbytes
+            else:
+                rows[name].append(np.frombuffer(buffer, dt, 1, at)[0])
+                at += np.dtype(dt).itemsize
 
-    cells = cell_data.pop("vertex_indices", [])
+    cells, cell_data = _blocks_from_rows(rows)
 
     return Mesh(verts, cells, point_data=point_data, cell_data=cell_data)
 
-- 
2.43.0


From b8d8940c932d19e33c7e842791847fb7aee4f682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:53 +0000
Subject: [PATCH 108/160] fix: blank lines and upper case keywords in ASCII STL
 files

---
 src/meshio/stl/_stl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/stl/_stl.py b/src/meshio/stl/_stl.py
index 6bba446..075b51c 100644
--- a/src/meshio/stl/_stl.py
+++ b/src/meshio/stl/_stl.py
@@ -65,7 +65,7 @@ def iter_loadtxt(
 
         for line in infile:
             line = line.decode().strip()
-            if line.startswith(comments):
+            if not line or line.lower().startswith(comments):
                 continue
             # remove all text
             items = line.split()[-3:]
-- 
2.43.0


From b0afb0e2b4dfaf6f4679def4b64eded2c4b9dec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:53 +0000
Subject: [PATCH 109/160] fix: negative indices and additional point values in
 OBJ files

---
 src/meshio/obj/_obj.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/meshio/obj/_obj.py b/src/meshio/obj/_obj.py
index d520818..1458ed2 100644
--- a/src/meshio/obj/_obj.py
+++ b/src/meshio/obj/_obj.py
@@ -42,7 +42,8 @@ def read_buffer(f):
         split = strip.split()
 
         if split[0] == "v":
-            points.append([float(item) for item in split[1:]])
+            # a weight or a color may follow the coordinates
+            points.append([float(item) for item in split[1:4]])
         elif split[0] == "vn":
             vertex_normals.append([float(item) for item in split[1:]])
         elif split[0] == "vt":
@@ -52,6 +53,8 @@ def read_buffer(f):
             pass
         elif split[0] == "f":
             dat = [int(item.split("/")[0]) for item in split[1:]]
+            # negative numbers count back from the last point
+            dat = [len(points) + 1 + k if k < 0 else k for k in dat]
             if len(face_groups) == 0 or (
                 len(face_groups[-1]) > 0 and len(face_groups[-1][-1]) != len(dat)
             ):
-- 
2.43.0


From 39655f0851599d1b0727310ae811f33f519f6acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:53 +0000
Subject: [PATCH 110/160] fix: any white space may separate the counts in OFF
 files

---
 src/meshio/off/_off.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/off/_off.py b/src/meshio/off/_off.py
index 7794f76..f902862 100644
--- a/src/meshio/off/_off.py
+++ b/src/meshio/off/_off.py
@@ -40,7 +40,7 @@ def read_buffer(f):
 
     # This next line contains:
     # <number of vertices> <number of faces> <number of edges>
-    num_verts, num_faces, _ = line.split(" ")
+    num_verts, num_faces, _ = line.split()
     num_verts = int(num_verts)
     num_faces = int(num_faces)
 
-- 
2.43.0


From 0ecdd7615afccb0e266007d1a06c01a137659580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:10 +0000
Subject: [PATCH 111/160] fix: VTU files with several pieces keep the cells of
 every piece

---
 src/meshio/vtu/_vtu.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/meshio/vtu/_vtu.py b/src/meshio/vtu/_vtu.py
index 03a5c52..d0373c8 100644
--- a/src/meshio/vtu/_vtu.py
+++ b/src/meshio/vtu/_vtu.py
@@ -149,16 +149,19 @@ def _organize_cells(point_offsets, cells, cell_data_raw):
             out_cells.append(CellBlock(tp, c))
 
     else:
+        cell_data = {}
         for offset, cls, cdr in zip(point_offsets, cells, cell_data_raw):
-            cls, cell_data = vtk_cells_from_data(
+            cls, piece_cell_data = vtk_cells_from_data(
                 cls["connectivity"].ravel(),
                 cls["offsets"].ravel(),
                 cls["types"].ravel(),
                 cdr,
             )
 
-        for c in cls:
-            out_cells.append(CellBlock(c.type, c.data + offset))
+            for c in cls:
+                out_cells.append(CellBlock(c.type, c.data + offset))
+            for name, data in piece_cell_data.items():
+                cell_data.setdefault(name, []).extend(data)
 
     return out_cells, cell_data
 
-- 
2.43.0


From 69b80598a88ea4594e4d0714a1f04091fbdcae08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:10 +0000
Subject: [PATCH 112/160] fix: the cell data of VTU polyhedra belong to the
 cells they were stored with

---
 src/meshio/vtu/_vtu.py | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/src/meshio/vtu/_vtu.py b/src/meshio/vtu/_vtu.py
index d0373c8..43b62bd 100644
--- a/src/meshio/vtu/_vtu.py
+++ b/src/meshio/vtu/_vtu.py
@@ -36,7 +36,7 @@ def num_bytes_to_num_base64_chars(num_bytes):
     return -(-num_bytes // 3) * 4
 
 
-def _polyhedron_cells_from_data(offsets, faces, faceoffsets, cell_data_raw):
+def _polyhedron_cells_from_data(faces, faceoffsets, cell_data_raw):
     # In general the number of faces will vary between cells, and the
     # number of nodes vary between faces for each cell. The information
     # will be stored as a List (one item per cell) of lists (one item
@@ -60,7 +60,8 @@ def _polyhedron_cells_from_data(offsets, faces, faceoffsets, cell_data_raw):
 
     # Double loop over cells then faces.
     # This will be slow, but seems necessary to cover all cases
-    for cell_start in faceoffsets:
+    items = {}
+    for k, cell_start in enumerate(faceoffsets):
         num_faces_this_cell = faces[cell_start]
         faces_this_cell = []
         next_face = cell_start + 1
@@ -83,27 +84,20 @@ def _polyhedron_cells_from_data(offsets, faces, faceoffsets, cell_data_raw):
         key = f"polyhedron{num_nodes_this_cell}"
         if key not in cells.keys():
             cells[key] = []
+            items[key] = []
         cells[key].append(faces_this_cell)
+        items[key].append(k)
 
     # The cells will be assigned to blocks according to their number of nodes.
     # This is potentially a reordering, compared to the ordering in faces.
     # Cell data must be reorganized accordingly.
 
-    # Start of the cell-node relations
-    start_cn = np.hstack((0, offsets))
-    size = np.diff(start_cn)
-
-    # Loop over all cell sizes, find all cells with this size, and store
-    # cell data.
-    for sz in np.unique(size):
-        # Cells with this number of nodes.
-        items = np.where(size == sz)[0]
-
+    for key in cells:
         # Store cell data for this set of cells
         for name, d in cell_data_raw.items():
             if name not in cell_data:
                 cell_data[name] = []
-            cell_data[name].append(d[items])
+            cell_data[name].append(d[items[key]])
 
     return cells, cell_data
 
@@ -139,10 +133,10 @@ def _organize_cells(point_offsets, cells, cell_data_raw):
 
         # Polyhedra are specified by their faces and faceoffsets; see the function
         # _polyhedron_cells_from_data for more information.
-        faces = cells[0]["faces"]
-        faceoffsets = cells[0]["faceoffsets"]
+        faces = cells[0]["faces"].ravel()
+        faceoffsets = cells[0]["faceoffsets"].ravel()
         cls, cell_data = _polyhedron_cells_from_data(
-            cells[0]["offsets"], faces, faceoffsets, cell_data_raw[0]
+            faces, faceoffsets, cell_data_raw[0]
         )
         # Organize polyhedra in cell blocks according to the number of nodes per cell.
         for tp, c in cls.items():
-- 
2.43.0


From a9cf409c15833f45f141a3034bed8b916428e4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:10 +0000
Subject: [PATCH 113/160] fix: raw appended VTU data are found by their offsets

---
 src/meshio/vtu/_vtu.py | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/src/meshio/vtu/_vtu.py b/src/meshio/vtu/_vtu.py
index 43b62bd..729b520 100644
--- a/src/meshio/vtu/_vtu.py
+++ b/src/meshio/vtu/_vtu.py
@@ -202,10 +202,17 @@ def _parse_raw_binary(filename):
 
     header = raw[:i_start].decode()
     footer = raw[i_stop:].decode()
-    data = raw[i_start:i_stop].split(b"_", 1)[1].rsplit(b"\n", 1)[0]
+    data = raw[i_start:i_stop].split(b"_", 1)[1]
 
     root = ET.fromstring(header + footer)
 
+    # The arrays are stored in the order of their offsets. What follows the last one is
+    # white space.
+    da_tags = sorted(
+        (da_tag for da_tag in root.iter("DataArray") if "offset" in da_tag.attrib),
+        key=lambda da_tag: int(da_tag.attrib["offset"]),
+    )
+
     dtype = vtu_to_numpy_type[root.get("header_type", "UInt32")]
     if "byte_order" in root.attrib:
         dtype = dtype.newbyteorder(
@@ -219,22 +226,14 @@ def _parse_raw_binary(filename):
     compressor = root.get("compressor")
     if compressor is None:
         arrays = ""
-        i = 0
-        while i < len(data):
-            # The following find() runs into issues if offset is padded with spaces, see
-            # <https://github.com/nschloe/meshio/issues/1135>. It works in ParaView.
-            # Unfortunately, Python's built-in XML tree can't handle regexes, see
-            # <https://stackoverflow.com/a/38810731/353337>.
-            da_tag = root.find(f".//DataArray[@offset='{i}']")
-            if da_tag is None:
-                raise RuntimeError(f"Could not find .//DataArray[@offset='{i}']")
+        for da_tag in da_tags:
+            i = int(da_tag.attrib["offset"])
             da_tag.set("offset", str(len(arrays)))
 
             block_size = int(np.frombuffer(data[i : i + dtype.itemsize], dtype)[0])
             arrays += base64.b64encode(
                 data[i : i + block_size + dtype.itemsize]
             ).decode()
-            i += block_size + dtype.itemsize
 
     else:
         c = {"vtkLZMADataCompressor": lzma, "vtkZLibDataCompressor": zlib}[compressor]
@@ -242,10 +241,8 @@ def _parse_raw_binary(filename):
 
         # raise ReadError("Compressed raw binary VTU files not supported.")
         arrays = ""
-        i = 0
-        while i < len(data):
-            da_tag = root.find(f".//DataArray[@offset='{i}']")
-            assert da_tag is not None
+        for da_tag in da_tags:
+            i = int(da_tag.attrib["offset"])
             da_tag.set("offset", str(len(arrays)))
 
             num_blocks = int(np.frombuffer(data[i : i + dtype.itemsize], dtype)[0])
@@ -267,8 +264,6 @@ def _parse_raw_binary(filename):
             block_size = np.array([len(block_data)]).astype(dtype).tobytes()
             arrays += base64.b64encode(block_size + block_data).decode()
 
-            i += j + num_header_bytes
-
     appended_data_tag.text = "_" + arrays
     return root
 
-- 
2.43.0


From d2b00ea7908623d0c91baca1d7f778f974658a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:25 +0000
Subject: [PATCH 114/160] fix: the mixed topology of XDMF 2 files may be stored
 outside the XML

---
 src/meshio/xdmf/main.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/meshio/xdmf/main.py b/src/meshio/xdmf/main.py
index da35e8c..d8ebfc1 100644
--- a/src/meshio/xdmf/main.py
+++ b/src/meshio/xdmf/main.py
@@ -172,14 +172,7 @@ class XdmfReader:
 
                 topology_type = c.attrib["TopologyType"]
                 if topology_type == "Mixed":
-                    cells = translate_mixed_cells(
-                        np.fromstring(
-                            data_items[0].text,
-                            int,
-                            int(data_items[0].get("Dimensions")),
-                            " ",
-                        )
-                    )
+                    cells = translate_mixed_cells(self._read_data_item(data_items[0]))
                 else:
                     data = self._read_data_item(data_items[0])
                     cells.append(CellBlock(xdmf_to_meshio_type[topology_type], data))
-- 
2.43.0


From ab95f447baeca3f5c8afc8b51b8fa579c3531b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:25 +0000
Subject: [PATCH 115/160] fix: the byte order and the position of binary data
 in XDMF files

---
 src/meshio/xdmf/common.py      | 13 +++++++++++++
 src/meshio/xdmf/main.py        |  9 ++++++---
 src/meshio/xdmf/time_series.py |  9 ++++++---
 3 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/meshio/xdmf/common.py b/src/meshio/xdmf/common.py
index 4045d21..caf933e 100644
--- a/src/meshio/xdmf/common.py
+++ b/src/meshio/xdmf/common.py
@@ -18,6 +18,19 @@ numpy_to_xdmf_dtype = {
 }
 xdmf_to_numpy_type = {v: k for k, v in numpy_to_xdmf_dtype.items()}
 
+
+def read_binary(path, data_item, dtype, dims):
+    """Read a data item of format Binary; it may start anywhere in the file, and in
+    either byte order."""
+    byte_order = {"Big": ">", "Little": "<", "Native": "="}
+    dtype = np.dtype(dtype).newbyteorder(byte_order[data_item.get("Endian", "Native")])
+    return np.fromfile(
+        path,
+        dtype=dtype,
+        count=np.prod(dims, dtype=int),
+        offset=int(data_item.get("Seek", "0")),
+    ).reshape(dims)
+
 dtype_to_format_string = {
     "int8": "%d",
     "int16": "%d",
diff --git a/src/meshio/xdmf/main.py b/src/meshio/xdmf/main.py
index d8ebfc1..8835b49 100644
--- a/src/meshio/xdmf/main.py
+++ b/src/meshio/xdmf/main.py
@@ -20,6 +20,7 @@ from .common import (
     meshio_to_xdmf_type,
     meshio_type_to_xdmf_index,
     numpy_to_xdmf_dtype,
+    read_binary,
     translate_mixed_cells,
     xdmf_to_meshio_type,
     xdmf_to_numpy_type,
@@ -93,10 +94,12 @@ class XdmfReader:
 
         elif fmt == "Binary":
             # The file path is given with respect to the XDMF (XML) file.
-            return np.fromfile(
+            return read_binary(
                 pathlib.Path(self.filename).resolve().parent / data_item.text.strip(),
-                dtype=xdmf_to_numpy_type[(data_type, precision)],
-            ).reshape(dims)
+                data_item,
+                xdmf_to_numpy_type[(data_type, precision)],
+                dims,
+            )
 
         if fmt != "HDF":
             raise ReadError(f"Unknown XDMF Format '{fmt}'.")
diff --git a/src/meshio/xdmf/time_series.py b/src/meshio/xdmf/time_series.py
index 44e244b..4202f0e 100644
--- a/src/meshio/xdmf/time_series.py
+++ b/src/meshio/xdmf/time_series.py
@@ -17,6 +17,7 @@ from .common import (
     meshio_to_xdmf_type,
     meshio_type_to_xdmf_index,
     numpy_to_xdmf_dtype,
+    read_binary,
     translate_mixed_cells,
     xdmf_to_meshio_type,
     xdmf_to_numpy_type,
@@ -200,10 +201,12 @@ class TimeSeriesReader:
             ).reshape(dims)
         elif data_format == "Binary":
             # The file path is given with respect to the XDMF (XML) file.
-            return np.fromfile(
+            return read_binary(
                 pathlib.Path(self.filename).resolve().parent / data_item.text.strip(),
-                dtype=xdmf_to_numpy_type[(data_type, precision)],
-            ).reshape(dims)
+                data_item,
+                xdmf_to_numpy_type[(data_type, precision)],
+                dims,
+            )
 
         if data_format != "HDF":
             raise ReadError(f"Unknown XDMF Format '{data_format}'.")
-- 
2.43.0


From c09792d9dd9843dd9f8ab186fe58d27a23a4c62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:04 +0000
Subject: [PATCH 116/160] fix: meshio info reports negative node indices

---
 src/meshio/_cli/_info.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/_cli/_info.py b/src/meshio/_cli/_info.py
index 546cbac..d76d146 100644
--- a/src/meshio/_cli/_info.py
+++ b/src/meshio/_cli/_info.py
@@ -24,7 +24,7 @@ def info(args):
     # check if the cell arrays are consistent with the points
     is_consistent = True
     for cells in mesh.cells:
-        if np.any(cells.data >= mesh.points.shape[0]):
+        if np.any((cells.data < 0) | (cells.data >= mesh.points.shape[0])):
             warn("Inconsistent mesh. Cells refer to nonexistent points.")
             is_consistent = False
             break
-- 
2.43.0


From bbaa9d86423a88ca812283d89343357d9dd58d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:04 +0000
Subject: [PATCH 117/160] fix: the command line tools keep the format of MSH
 files

---
 src/meshio/_cli/_ascii.py      | 12 +++---------
 src/meshio/_cli/_binary.py     | 12 +++---------
 src/meshio/_cli/_compress.py   | 12 +++---------
 src/meshio/_cli/_decompress.py | 12 +++---------
 src/meshio/_helpers.py         |  5 +++--
 5 files changed, 15 insertions(+), 38 deletions(-)

diff --git a/src/meshio/_cli/_ascii.py b/src/meshio/_cli/_ascii.py
index 45aff5a..b2b289a 100644
--- a/src/meshio/_cli/_ascii.py
+++ b/src/meshio/_cli/_ascii.py
@@ -3,7 +3,7 @@ import pathlib
 
 from .. import ansys, flac3d, gmsh, mdpa, ply, stl, vtk, vtu, xdmf
 from .._common import error
-from .._helpers import _filetypes_from_path, read, reader_map
+from .._helpers import _read_file, reader_map
 
 
 def add_args(parser):
@@ -20,16 +20,10 @@ def add_args(parser):
 
 
 def ascii(args):
-    if args.input_format:
-        fmts = [args.input_format]
-    else:
-        fmts = _filetypes_from_path(pathlib.Path(args.infile))
-    # pick the first
-    fmt = fmts[0]
-
     size = os.stat(args.infile).st_size
     print(f"File size before: {size / 1024 ** 2:.2f} MB")
-    mesh = read(args.infile, file_format=args.input_format)
+    # the file is written in the format it was read as
+    mesh, fmt = _read_file(pathlib.Path(args.infile), args.input_format)
 
     # # Some converters (like VTK) require `points` to be contiguous.
     # mesh.points = np.ascontiguousarray(mesh.points)
diff --git a/src/meshio/_cli/_binary.py b/src/meshio/_cli/_binary.py
index ccf0635..dbe11c0 100644
--- a/src/meshio/_cli/_binary.py
+++ b/src/meshio/_cli/_binary.py
@@ -2,7 +2,7 @@ import os
 import pathlib
 
 from .. import ansys, flac3d, gmsh, mdpa, ply, stl, vtk, vtu, xdmf
-from .._helpers import _filetypes_from_path, read, reader_map
+from .._helpers import _read_file, reader_map
 
 
 def add_args(parser):
@@ -19,16 +19,10 @@ def add_args(parser):
 
 
 def binary(args):
-    if args.input_format:
-        fmts = [args.input_format]
-    else:
-        fmts = _filetypes_from_path(pathlib.Path(args.infile))
-    # pick the first
-    fmt = fmts[0]
-
     size = os.stat(args.infile).st_size
     print(f"File size before: {size / 1024 ** 2:.2f} MB")
-    mesh = read(args.infile, file_format=args.input_format)
+    # the file is written in the format it was read as
+    mesh, fmt = _read_file(pathlib.Path(args.infile), args.input_format)
 
     # # Some converters (like VTK) require `points` to be contiguous.
     # mesh.points = np.ascontiguousarray(mesh.points)
diff --git a/src/meshio/_cli/_compress.py b/src/meshio/_cli/_compress.py
index 9103a0b..2865999 100644
--- a/src/meshio/_cli/_compress.py
+++ b/src/meshio/_cli/_compress.py
@@ -3,7 +3,7 @@ import pathlib
 
 from .. import ansys, cgns, gmsh, h5m, mdpa, ply, stl, vtk, vtu, xdmf
 from .._common import error
-from .._helpers import _filetypes_from_path, read, reader_map
+from .._helpers import _read_file, reader_map
 
 
 def add_args(parser):
@@ -26,16 +26,10 @@ def add_args(parser):
 
 
 def compress(args):
-    if args.input_format:
-        fmts = [args.input_format]
-    else:
-        fmts = _filetypes_from_path(pathlib.Path(args.infile))
-    # pick the first
-    fmt = fmts[0]
-
     size = os.stat(args.infile).st_size
     print(f"File size before: {size / 1024 ** 2:.2f} MB")
-    mesh = read(args.infile, file_format=args.input_format)
+    # the file is written in the format it was read as
+    mesh, fmt = _read_file(pathlib.Path(args.infile), args.input_format)
 
     # # Some converters (like VTK) require `points` to be contiguous.
     # mesh.points = np.ascontiguousarray(mesh.points)
diff --git a/src/meshio/_cli/_decompress.py b/src/meshio/_cli/_decompress.py
index 3c67dda..c0a6efc 100644
--- a/src/meshio/_cli/_decompress.py
+++ b/src/meshio/_cli/_decompress.py
@@ -3,7 +3,7 @@ import pathlib
 
 from .. import cgns, h5m, vtu, xdmf
 from .._common import error
-from .._helpers import _filetypes_from_path, read, reader_map
+from .._helpers import _read_file, reader_map
 
 
 def add_args(parser):
@@ -19,16 +19,10 @@ def add_args(parser):
 
 
 def decompress(args):
-    if args.input_format:
-        fmts = [args.input_format]
-    else:
-        fmts = _filetypes_from_path(pathlib.Path(args.infile))
-    # pick the first
-    fmt = fmts[0]
-
     size = os.stat(args.infile).st_size
     print(f"File size before: {size / 1024 ** 2:.2f} MB")
-    mesh = read(args.infile, file_format=args.input_format)
+    # the file is written in the format it was read as
+    mesh, fmt = _read_file(pathlib.Path(args.infile), args.input_format)
 
     # # Some converters (like VTK) require `points` to be contiguous.
     # mesh.points = np.ascontiguousarray(mesh.points)
diff --git a/src/meshio/_helpers.py b/src/meshio/_helpers.py
index fac14a5..aadbdc9 100644
--- a/src/meshio/_helpers.py
+++ b/src/meshio/_helpers.py
@@ -73,7 +73,7 @@ def read(filename, file_format: str | None = None):
     if is_buffer(filename, "r"):
         return _read_buffer(filename, file_format)
 
-    return _read_file(Path(filename), file_format)
+    return _read_file(Path(filename), file_format)[0]
 
 
 def _read_buffer(filename, file_format: str | None):
@@ -91,6 +91,7 @@ def _read_buffer(filename, file_format: str | None):
 
 
 def _read_file(path: Path, file_format: str | None):
+    """Returns the mesh and the format it was read as."""
     if not path.exists():
         raise ReadError(f"File {path} not found.")
 
@@ -105,7 +106,7 @@ def _read_file(path: Path, file_format: str | None):
             raise ReadError(f"Unknown file format '{file_format}' of '{path}'.")
 
         try:
-            return reader_map[file_format](str(path))
+            return reader_map[file_format](str(path)), file_format
         except ReadError as e:
             print(e)
 
-- 
2.43.0


From 91fac727e5b326d04ba0f15cd321e6613264f159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:33 +0000
Subject: [PATCH 118/160] fix: CGNS, H5M, and HMF files without compression

---
 src/meshio/cgns/_cgns.py | 3 +++
 src/meshio/h5m/_h5m.py   | 3 +++
 src/meshio/hmf/_hmf.py   | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/meshio/cgns/_cgns.py b/src/meshio/cgns/_cgns.py
index fedf630..03a5344 100644
--- a/src/meshio/cgns/_cgns.py
+++ b/src/meshio/cgns/_cgns.py
@@ -43,6 +43,9 @@ def read(filename):
 def write(filename, mesh, compression="gzip", compression_opts=4):
     import h5py
 
+    if compression is None:
+        compression_opts = None
+
     with h5py.File(filename, "w") as f:
         _write(f, mesh, compression, compression_opts)
 
diff --git a/src/meshio/h5m/_h5m.py b/src/meshio/h5m/_h5m.py
index 5181c5d..226fbc2 100644
--- a/src/meshio/h5m/_h5m.py
+++ b/src/meshio/h5m/_h5m.py
@@ -116,6 +116,9 @@ def read(filename):
 def write(filename, mesh, add_global_ids=True, compression="gzip", compression_opts=4):
     import h5py
 
+    if compression is None:
+        compression_opts = None
+
     with h5py.File(filename, "w") as f:
         _write(f, mesh, add_global_ids, compression, compression_opts)
 
diff --git a/src/meshio/hmf/_hmf.py b/src/meshio/hmf/_hmf.py
index f02c99e..64d5f05 100644
--- a/src/meshio/hmf/_hmf.py
+++ b/src/meshio/hmf/_hmf.py
@@ -66,6 +66,9 @@ def write_points_cells(filename, points, cells, **kwargs):
 def write(filename, mesh, compression="gzip", compression_opts=4):
     import h5py
 
+    if compression is None:
+        compression_opts = None
+
     warn("Experimental file format. Format can change at any time.")
     with h5py.File(filename, "w") as h5_file:
         h5_file.attrs["type"] = "hmf"
-- 
2.43.0


From 8bb0b3abe8690f890fc121f0f5932c1178e4bdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:48 +0000
Subject: [PATCH 119/160] fix: meshio info on meshes of polyhedra

---
 src/meshio/_cli/_info.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/meshio/_cli/_info.py b/src/meshio/_cli/_info.py
index d76d146..13a85ca 100644
--- a/src/meshio/_cli/_info.py
+++ b/src/meshio/_cli/_info.py
@@ -16,6 +16,13 @@ def add_args(parser):
     )
 
 
+def _node_indices(cells):
+    if cells.type.startswith("polyhedron"):
+        # polyhedra are lists of faces
+        return np.concatenate([np.concatenate(faces) for faces in cells.data])
+    return cells.data
+
+
 def info(args):
     # read mesh data
     mesh = read(args.infile, file_format=args.input_format)
@@ -24,7 +31,8 @@ def info(args):
     # check if the cell arrays are consistent with the points
     is_consistent = True
     for cells in mesh.cells:
-        if np.any((cells.data < 0) | (cells.data >= mesh.points.shape[0])):
+        data = _node_indices(cells)
+        if np.any((data < 0) | (data >= mesh.points.shape[0])):
             warn("Inconsistent mesh. Cells refer to nonexistent points.")
             is_consistent = False
             break
@@ -33,7 +41,7 @@ def info(args):
     if is_consistent:
         point_is_used = np.zeros(mesh.points.shape[0], dtype=bool)
         for cells in mesh.cells:
-            point_is_used[cells.data] = True
+            point_is_used[_node_indices(cells)] = True
         if np.any(~point_is_used):
             warn("Some points are not part of any cell.")
 
-- 
2.43.0


From d616d39586600b95aef24c0be8bc4063ba6390a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:58 +0000
Subject: [PATCH 120/160] fix: any path-like object can be written to

---
 src/meshio/_helpers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/meshio/_helpers.py b/src/meshio/_helpers.py
index aadbdc9..2f21adf 100644
--- a/src/meshio/_helpers.py
+++ b/src/meshio/_helpers.py
@@ -163,6 +163,9 @@ def write(filename, mesh: Mesh, file_format: str | None = None, **kwargs):
             )
     else:
         path = Path(filename)
+        if not isinstance(filename, str):
+            # some writers look at the name of the file
+            filename = path
         if not file_format:
             # deduce possible file formats from extension
             file_formats = _filetypes_from_path(path)
-- 
2.43.0


From b6075f0dbedc28fa5b600c0a3379621cf4b30dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:58 +0000
Subject: [PATCH 121/160] fix: XDMF files with a colon in their name

---
 src/meshio/xdmf/main.py        | 2 +-
 src/meshio/xdmf/time_series.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/meshio/xdmf/main.py b/src/meshio/xdmf/main.py
index 8835b49..cd4e0ef 100644
--- a/src/meshio/xdmf/main.py
+++ b/src/meshio/xdmf/main.py
@@ -105,7 +105,7 @@ class XdmfReader:
             raise ReadError(f"Unknown XDMF Format '{fmt}'.")
 
         info = data_item.text.strip()
-        filename, h5path = info.split(":")
+        filename, h5path = info.rsplit(":", 1)
 
         # The HDF5 file path is given with respect to the XDMF (XML) file.
         dirname = pathlib.Path(self.filename).resolve().parent
diff --git a/src/meshio/xdmf/time_series.py b/src/meshio/xdmf/time_series.py
index 4202f0e..a0d2090 100644
--- a/src/meshio/xdmf/time_series.py
+++ b/src/meshio/xdmf/time_series.py
@@ -212,7 +212,7 @@ class TimeSeriesReader:
             raise ReadError(f"Unknown XDMF Format '{data_format}'.")
 
         info = data_item.text.strip()
-        filename, h5path = info.split(":")
+        filename, h5path = info.rsplit(":", 1)
 
         # The HDF5 file path is given with respect to the XDMF (XML) file.
         dirpath = self.filename.resolve().parent
-- 
2.43.0


From 160ac3a0f69358fc8a0d43c6e2c8ff847782f1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:58 +0000
Subject: [PATCH 122/160] fix: DOLFIN files with special characters in their
 name

---
 src/meshio/dolfin/_dolfin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/dolfin/_dolfin.py b/src/meshio/dolfin/_dolfin.py
index e37794c..1ab6425 100644
--- a/src/meshio/dolfin/_dolfin.py
+++ b/src/meshio/dolfin/_dolfin.py
@@ -94,7 +94,7 @@ def _read_cell_data(filename):
     for f in os.listdir(dir_name):
         # Check if there are files by the name "<filename>_*.xml"; if yes,
         # extract the * pattern and make it the name of the data set.
-        out = re.match(f"{basename}_([^\\.]+)\\.xml", f)
+        out = re.match(f"{re.escape(basename)}_([^\\.]+)\\.xml", f)
         if not out:
             continue
         name = out.group(1)
-- 
2.43.0


From 4263de031a016f7f96f68a1cb8d11b291581f3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:16 +0000
Subject: [PATCH 123/160] fix: buffers are read from their position or
 rejected, not read or written as something else

---
 src/meshio/exodus/_exodus.py | 6 +++++-
 src/meshio/flac3d/_flac3d.py | 8 ++++++--
 src/meshio/obj/_obj.py       | 5 ++++-
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/meshio/exodus/_exodus.py b/src/meshio/exodus/_exodus.py
index 004a222..4959e36 100644
--- a/src/meshio/exodus/_exodus.py
+++ b/src/meshio/exodus/_exodus.py
@@ -13,7 +13,8 @@ import numpy as np
 
 from ..__about__ import __version__
 from .._common import warn
-from .._exceptions import ReadError
+from .._exceptions import ReadError, WriteError
+from .._files import is_buffer
 from .._helpers import register_format
 from .._mesh import Mesh
 
@@ -262,6 +263,9 @@ numpy_to_exodus_dtype = {
 def write(filename, mesh):
     import netCDF4
 
+    if is_buffer(filename, "w"):
+        raise WriteError("Exodus files cannot be written to a buffer.")
+
     with netCDF4.Dataset(filename, "w") as rootgrp:
         # set global data
         now = datetime.datetime.now().isoformat()
diff --git a/src/meshio/flac3d/_flac3d.py b/src/meshio/flac3d/_flac3d.py
index d4370c3..1c6c2a5 100644
--- a/src/meshio/flac3d/_flac3d.py
+++ b/src/meshio/flac3d/_flac3d.py
@@ -13,7 +13,7 @@ import numpy as np
 from ..__about__ import __version__ as version
 from .._common import warn
 from .._exceptions import ReadError
-from .._files import open_file
+from .._files import is_buffer, open_file
 from .._helpers import register_format
 from .._mesh import Mesh
 
@@ -102,8 +102,12 @@ def read(filename):
     # Read a small block of the file to assess its type
     # See <https://code.activestate.com/recipes/173220/>
     with open_file(filename, "rb") as f:
+        position = f.tell()
         block = f.read(8)
-        binary = b"\x00" in block
+        f.seek(position)
+        binary = isinstance(block, bytes) and b"\x00" in block
+        if is_buffer(filename, "r") and isinstance(block, bytes) and not binary:
+            raise ReadError("Expected text buffer, not bytes.")
 
     mode = "rb" if binary else "r"
     with open_file(filename, mode) as f:
diff --git a/src/meshio/obj/_obj.py b/src/meshio/obj/_obj.py
index 1458ed2..f790576 100644
--- a/src/meshio/obj/_obj.py
+++ b/src/meshio/obj/_obj.py
@@ -8,7 +8,7 @@ import datetime
 import numpy as np
 
 from ..__about__ import __version__
-from .._exceptions import WriteError
+from .._exceptions import ReadError, WriteError
 from .._files import open_file
 from .._helpers import register_format
 from .._mesh import CellBlock, Mesh
@@ -30,6 +30,9 @@ def read_buffer(f):
     while True:
         line = f.readline()
 
+        if not isinstance(line, str):
+            raise ReadError("Expected text buffer, not bytes.")
+
         if not line:
             # EOF
             break
-- 
2.43.0


From 3cec8dc7ba109270574c48c0655b47487ac63d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:54 +0000
Subject: [PATCH 124/160] fix: SU2 warns about lines of 3-D meshes, which it
 cannot hold

---
 src/meshio/su2/_su2.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/meshio/su2/_su2.py b/src/meshio/su2/_su2.py
index 067c24f..d7e5141 100644
--- a/src/meshio/su2/_su2.py
+++ b/src/meshio/su2/_su2.py
@@ -306,6 +306,8 @@ def write(filename, mesh):
             types = ["line"]
         else:
             types = ["triangle", "quad"]
+            if any(c.type == "line" for c in mesh.cells):
+                warn(".su2 does not support lines in 3D meshes. Skipping ...")
 
         tags_per_cell_block = dict()
 
-- 
2.43.0


From 51a438b63cf3831a8a27d0f030933a2236544306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:54 +0000
Subject: [PATCH 125/160] fix: FLAC3D warns when only the corners of
 higher-order cells are written

---
 src/meshio/flac3d/_flac3d.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/meshio/flac3d/_flac3d.py b/src/meshio/flac3d/_flac3d.py
index 1c6c2a5..a05ed4b 100644
--- a/src/meshio/flac3d/_flac3d.py
+++ b/src/meshio/flac3d/_flac3d.py
@@ -404,6 +404,17 @@ def write(filename, mesh: Mesh, float_fmt: str = ".16e", binary: bool = False):
     if skip:
         warn(f'FLAC3D format only supports 2D and 3D cells. Skipping {", ".join(skip)}.')
 
+    linearized = [
+        c.type
+        for c in mesh.cells
+        if {**meshio_only["zone"], **meshio_only["face"]}.get(c.type, c.type) != c.type
+    ]
+    if linearized:
+        warn(
+            "FLAC3D format only supports linear cells. "
+            f'Keeping only the corners of {", ".join(linearized)}.'
+        )
+
     # split into face/zone data
     zcells, fcells, zsets, fsets = split_f_z(mesh)
 
-- 
2.43.0


From 65a99ce1490d000aa2f12548cfa26ae023f90c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:54 +0000
Subject: [PATCH 126/160] fix: CGNS warns about cells it does not write

---
 src/meshio/cgns/_cgns.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/meshio/cgns/_cgns.py b/src/meshio/cgns/_cgns.py
index 03a5344..b94560f 100644
--- a/src/meshio/cgns/_cgns.py
+++ b/src/meshio/cgns/_cgns.py
@@ -6,7 +6,8 @@ TODO link to specification?
 
 import numpy as np
 
-from .._exceptions import ReadError
+from .._common import warn
+from .._exceptions import ReadError, WriteError
 from .._helpers import register_format
 from .._mesh import Mesh
 
@@ -46,6 +47,12 @@ def write(filename, mesh, compression="gzip", compression_opts=4):
     if compression is None:
         compression_opts = None
 
+    skip = [c.type for c in mesh.cells if c.type != "tetra"]
+    if skip:
+        warn(f'CGNS format only supports tetra cells. Skipping {", ".join(skip)}.')
+    if len(skip) == len(mesh.cells):
+        raise WriteError("CGNS format needs tetra cells.")
+
     with h5py.File(filename, "w") as f:
         _write(f, mesh, compression, compression_opts)
 
-- 
2.43.0


From d09c304b6a0b5b2ad11d71cf02e5af16471acd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:54 +0000
Subject: [PATCH 127/160] fix: tensor data are written with all their
 components to VTK, VTU, and MSH

---
 src/meshio/gmsh/common.py | 2 ++
 src/meshio/vtk/_vtk_42.py | 2 ++
 src/meshio/vtk/_vtk_51.py | 2 ++
 src/meshio/vtu/_vtu.py    | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/src/meshio/gmsh/common.py b/src/meshio/gmsh/common.py
index 2cff63e..7a207b0 100644
--- a/src/meshio/gmsh/common.py
+++ b/src/meshio/gmsh/common.py
@@ -256,6 +256,8 @@ def _write_data(fh, tag, name, data, binary):
     # time step
     fh.write(f"{0}\n".encode())
     # number of components
+    if len(data.shape) > 2:
+        data = data.reshape(len(data), int(np.prod(data.shape[1:])))
     num_components = data.shape[1] if len(data.shape) > 1 else 1
     if num_components not in [1, 3, 9]:
         raise WriteError("Gmsh only permits 1, 3, or 9 components per data field.")
diff --git a/src/meshio/vtk/_vtk_42.py b/src/meshio/vtk/_vtk_42.py
index 21a4a9b..5e88b50 100644
--- a/src/meshio/vtk/_vtk_42.py
+++ b/src/meshio/vtk/_vtk_42.py
@@ -742,6 +742,8 @@ def _write_field_data(f, data, binary):
     for name, values in data.items():
         if isinstance(values, list):
             values = np.concatenate(values)
+        if len(values.shape) > 2:
+            values = values.reshape(len(values), int(np.prod(values.shape[1:])))
         if len(values.shape) == 1:
             num_tuples = values.shape[0]
             num_components = 1
diff --git a/src/meshio/vtk/_vtk_51.py b/src/meshio/vtk/_vtk_51.py
index f5601c0..694cd59 100644
--- a/src/meshio/vtk/_vtk_51.py
+++ b/src/meshio/vtk/_vtk_51.py
@@ -660,6 +660,8 @@ def _write_field_data(f, data, binary):
     for name, values in data.items():
         if isinstance(values, list):
             values = np.concatenate(values)
+        if len(values.shape) > 2:
+            values = values.reshape(len(values), int(np.prod(values.shape[1:])))
         if len(values.shape) == 1:
             num_tuples = values.shape[0]
             num_components = 1
diff --git a/src/meshio/vtu/_vtu.py b/src/meshio/vtu/_vtu.py
index 729b520..a3d6d9f 100644
--- a/src/meshio/vtu/_vtu.py
+++ b/src/meshio/vtu/_vtu.py
@@ -702,6 +702,8 @@ def write(filename, mesh, binary=True, compression="zlib", header_type=None):
         vtu_type = numpy_to_vtu_type[data.dtype]
         fmt = "{:.11e}" if vtu_type.startswith("Float") else "{:d}"
         da = ET.SubElement(parent, "DataArray", type=vtu_type, Name=name)
+        if len(data.shape) > 2:
+            data = data.reshape(len(data), int(np.prod(data.shape[1:])))
         if len(data.shape) == 2:
             da.set("NumberOfComponents", f"{data.shape[1]}")
 
-- 
2.43.0


From 3bb75864da1ab939469f96b25ca4f39a2be37736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:54 +0000
Subject: [PATCH 128/160] fix: MSH 4.1 files with blocks without cells can be
 read

---
 src/meshio/gmsh/_gmsh41.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/gmsh/_gmsh41.py b/src/meshio/gmsh/_gmsh41.py
index 6eba856..ebf9a1a 100644
--- a/src/meshio/gmsh/_gmsh41.py
+++ b/src/meshio/gmsh/_gmsh41.py
@@ -228,7 +228,7 @@ def _read_elements(
         tpe = _gmsh_to_meshio_type[type_ele]
         num_nodes_per_ele = num_nodes_per_cell[tpe]
         d = fromfile(f, c_size_t, int(num_ele * (1 + num_nodes_per_ele))).reshape(
-            (num_ele, -1)
+            (num_ele, 1 + num_nodes_per_ele)
         )
 
         # Find physical tag, if defined; else it is None.
-- 
2.43.0


From ab573f39c2f96d8be69d95124febf148ab657f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:17 +0000
Subject: [PATCH 129/160] fix: VTK files without cells can be read

---
 src/meshio/_vtk_common.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/meshio/_vtk_common.py b/src/meshio/_vtk_common.py
index f36e27d..253ddd6 100644
--- a/src/meshio/_vtk_common.py
+++ b/src/meshio/_vtk_common.py
@@ -107,6 +107,9 @@ def vtk_cells_from_data(connectivity, offsets, types, cell_data_raw):
     if len(offsets) != len(types):
         raise ReadError(f"len(offsets) != len(types) ({len(offsets)} != {len(types)})")
 
+    if len(types) == 0:
+        return [], {}
+
     # identify cell blocks
     breaks = np.where(types[:-1] != types[1:])[0] + 1
     # all cells with indices between start[k] and end[k] have the same type
-- 
2.43.0


From af88c7ae5166f53ba4ed71800c4d4f2b7ad78ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:17 +0000
Subject: [PATCH 130/160] fix: VTU files without cells can be read

---
 src/meshio/vtu/_vtu.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/meshio/vtu/_vtu.py b/src/meshio/vtu/_vtu.py
index a3d6d9f..3f288dd 100644
--- a/src/meshio/vtu/_vtu.py
+++ b/src/meshio/vtu/_vtu.py
@@ -415,6 +415,10 @@ class VtuReader:
                 else:
                     raise ReadError(f"Unknown tag '{child.tag}'.")
 
+            if not piece_cells and num_cells == 0:
+                empty = np.array([], dtype=int)
+                cells.append({k: empty for k in ["connectivity", "offsets", "types"]})
+
         if not cell_data_raw:
             cell_data_raw = [{}] * len(cells)
 
@@ -517,6 +521,7 @@ class VtuReader:
                 )
                 for k in range(num_blocks)
             ]
+            or [np.array([], dtype=dtype)]
         )
 
         return block_data
-- 
2.43.0


From 4ab6d07547bb82f41b3284bf8155bcebcf58b01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:17 +0000
Subject: [PATCH 131/160] fix: Tecplot files with zones without cells can be
 read

---
 src/meshio/tecplot/_tecplot.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/meshio/tecplot/_tecplot.py b/src/meshio/tecplot/_tecplot.py
index 82c9133..5ee3ad6 100644
--- a/src/meshio/tecplot/_tecplot.py
+++ b/src/meshio/tecplot/_tecplot.py
@@ -7,7 +7,7 @@ I/O for Tecplot ASCII data format, cf.
 import numpy as np
 
 from ..__about__ import __version__ as version
-from .._common import warn
+from .._common import num_nodes_per_cell, warn
 from .._exceptions import ReadError, WriteError
 from .._files import open_file
 from .._helpers import register_format
@@ -205,7 +205,9 @@ def read_buffer(f):
     assert variables is not None
     assert is_cell_centered is not None
     assert data is not None
-    assert cells is not None
+    if cells is None:
+        num_nodes = num_nodes_per_cell[tecplot_to_meshio_type[zone_type]]
+        cells = np.empty((0, num_nodes), dtype=int)
 
     data = (
         np.split(np.concatenate(data), np.cumsum(num_data[:-1]))
@@ -381,7 +383,7 @@ def _read_zone_data(f, num_data, num_cells, zone_format):
             cells += [[[int(x) for x in line]]]
             count += 1
 
-    return data, np.concatenate(cells)
+    return data, np.concatenate(cells) if cells else None
 
 
 def write(filename, mesh):
-- 
2.43.0


From bdea3db8f70cdd418fefa92b66922deb75746f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:17 +0000
Subject: [PATCH 132/160] fix: Tecplot and TetGen files hold logical data as
 numbers

---
 src/meshio/tecplot/_tecplot.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/meshio/tecplot/_tecplot.py b/src/meshio/tecplot/_tecplot.py
index 5ee3ad6..68b6c21 100644
--- a/src/meshio/tecplot/_tecplot.py
+++ b/src/meshio/tecplot/_tecplot.py
@@ -509,6 +509,8 @@ def write(filename, mesh):
 
 
 def _write_table(f, data, ncol=20):
+    if data.dtype == bool:
+        data = data.astype(int)
     nrow = len(data) // ncol
     lines = np.split(data, np.full(nrow, ncol).cumsum())
     for line in lines:
-- 
2.43.0


From a9bd41013563f421ea9969040a10e5252cbad4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:17 +0000
Subject: [PATCH 133/160] fix: MED files with blocks without cells can be read

---
 src/meshio/med/_med.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/meshio/med/_med.py b/src/meshio/med/_med.py
index 44e719e..5357e65 100644
--- a/src/meshio/med/_med.py
+++ b/src/meshio/med/_med.py
@@ -88,7 +88,8 @@ def read(filename):
         cell_types.append(cell_type)
         nod = med_cell_type_group["NOD"]
         n_cells = nod.attrs["NBR"]
-        cells += [(cell_type, nod[()].reshape(n_cells, -1, order="F") - 1)]
+        num_nodes = num_nodes_per_cell[cell_type]
+        cells += [(cell_type, nod[()].reshape(n_cells, num_nodes, order="F") - 1)]
 
         # Cell tags
         if "FAM" in med_cell_type_group:
-- 
2.43.0


From 96dbcf5ba7da5f86927ca85e314582ea8de308e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:41 +0000
Subject: [PATCH 134/160] fix: TetGen files hold logical data as numbers

---
 src/meshio/tetgen/_tetgen.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/meshio/tetgen/_tetgen.py b/src/meshio/tetgen/_tetgen.py
index 3026506..61aed23 100644
--- a/src/meshio/tetgen/_tetgen.py
+++ b/src/meshio/tetgen/_tetgen.py
@@ -112,6 +112,10 @@ def _scalar_keys(data):
     return keys
 
 
+def _number(x):
+    return int(x) if isinstance(x, np.bool_) else x
+
+
 def write(filename, mesh, float_fmt=".16e"):
     filename = pathlib.Path(filename)
     if filename.suffix == ".node":
@@ -158,7 +162,7 @@ def write(filename, mesh, float_fmt=".16e"):
             data = (
                 list(pt[:3])
                 + [mesh.point_data[key][k] for key in attr_keys]
-                + [mesh.point_data[key][k] for key in ref_keys]
+                + [_number(mesh.point_data[key][k]) for key in ref_keys]
             )
             fh.write(fmt.format(k, *data))
 
@@ -187,7 +191,7 @@ def write(filename, mesh, float_fmt=".16e"):
             if c.type != "tetra":
                 continue
             for k, tet in enumerate(c.data):
-                attrs = [mesh.cell_data[key][block][k] for key in attr_keys]
+                attrs = [_number(mesh.cell_data[key][block][k]) for key in attr_keys]
                 fh.write(fmt.format(idx, *tet[:4], *attrs))
                 idx += 1
 
-- 
2.43.0


From c13f6a36129a56adeb602966cc1c86b4dd5c4f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:40 +0000
Subject: [PATCH 135/160] fix: UGRID files of 2-D meshes get a third coordinate

---
 src/meshio/ugrid/_ugrid.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/meshio/ugrid/_ugrid.py b/src/meshio/ugrid/_ugrid.py
index 0d1c83b..66e8d95 100644
--- a/src/meshio/ugrid/_ugrid.py
+++ b/src/meshio/ugrid/_ugrid.py
@@ -163,6 +163,14 @@ def _write_buffer(f, file_type, mesh):
     itype = file_type["int_type"]
     ftype = file_type["float_type"]
 
+    points = mesh.points
+    if points.shape[1] == 2:
+        warn(
+            "UGRID requires 3D points, but 2D points given. "
+            "Appending 0 third component."
+        )
+        points = np.column_stack([points, np.zeros_like(points[:, 0])])
+
     ugrid_counts = {
         "points": 0,
         "triangle": 0,
@@ -215,7 +223,7 @@ def _write_buffer(f, file_type, mesh):
         _write_section(f, file_type, fortran_header, itype)
 
         # start next record
-        fortran_header = mesh.points.size * np.dtype(ftype).itemsize
+        fortran_header = points.size * np.dtype(ftype).itemsize
         for cell_block in mesh.cells:
             if cell_block.type in ugrid_counts:
                 fortran_header += cell_block.data.size * np.dtype(itype).itemsize
@@ -227,7 +235,7 @@ def _write_buffer(f, file_type, mesh):
         fortran_header = np.array([fortran_header])
         _write_section(f, file_type, fortran_header, itype)
 
-    _write_section(f, file_type, mesh.points, ftype)
+    _write_section(f, file_type, points, ftype)
 
     for key in ["triangle", "quad"]:
         if ugrid_counts[key] == 0:
-- 
2.43.0


From 6104b9c5aff538547a10407f53aac6e17386913d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:40 +0000
Subject: [PATCH 136/160] fix: WKT files of 2-D meshes get a third coordinate

---
 src/meshio/wkt/_wkt.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/meshio/wkt/_wkt.py b/src/meshio/wkt/_wkt.py
index 5a97aec..d505b86 100644
--- a/src/meshio/wkt/_wkt.py
+++ b/src/meshio/wkt/_wkt.py
@@ -84,9 +84,17 @@ def write_buffer(f, mesh):
 
     triangles = mesh.get_cells_type("triangle")
 
+    points = mesh.points
+    if points.shape[1] == 2:
+        warn(
+            "WKT requires 3D points, but 2D points given. "
+            "Appending 0 third component."
+        )
+        points = np.column_stack([points, np.zeros_like(points[:, 0])])
+
     f.write("TIN (")
     joiner = ""
-    for tri_points in mesh.points[triangles]:
+    for tri_points in points[triangles]:
         f.write(
             "{0}(({1}, {2}, {3}, {1}))".format(
                 joiner, *(arr_to_str(p) for p in tri_points)
-- 
2.43.0


From 546c6350f4716a5bd3bc38373a140320b791ec30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:12 +0000
Subject: [PATCH 137/160] fix: SU2 warns about 3-D cells of 2-D meshes, which
 it cannot hold

---
 src/meshio/su2/_su2.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/meshio/su2/_su2.py b/src/meshio/su2/_su2.py
index d7e5141..0dfcd37 100644
--- a/src/meshio/su2/_su2.py
+++ b/src/meshio/su2/_su2.py
@@ -271,6 +271,11 @@ def write(filename, mesh):
 
         types = None
         if dim == 2:
+            if any(
+                c.type in ["tetra", "hexahedron", "wedge", "pyramid"]
+                for c in mesh.cells
+            ):
+                warn(".su2 does not support 3D cells in 2D meshes. Skipping ...")
             # `internal` cells are considered to be triangles and quads
             types = ["triangle", "quad"]
         else:
-- 
2.43.0


From 7c3f1b7f9fa6a146e948988025e94edfb796243c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:12 +0000
Subject: [PATCH 138/160] fix: MSH files hold logical data as numbers

---
 src/meshio/gmsh/common.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/meshio/gmsh/common.py b/src/meshio/gmsh/common.py
index 7a207b0..0469151 100644
--- a/src/meshio/gmsh/common.py
+++ b/src/meshio/gmsh/common.py
@@ -256,6 +256,8 @@ def _write_data(fh, tag, name, data, binary):
     # time step
     fh.write(f"{0}\n".encode())
     # number of components
+    if data.dtype == bool:
+        data = data.astype(int)
     if len(data.shape) > 2:
         data = data.reshape(len(data), int(np.prod(data.shape[1:])))
     num_components = data.shape[1] if len(data.shape) > 1 else 1
-- 
2.43.0


From 068723c907d03ad04b64d3c189f4af1adf73b537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:12 +0000
Subject: [PATCH 139/160] fix: CGNS files without cells can be read

---
 src/meshio/cgns/_cgns.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/meshio/cgns/_cgns.py b/src/meshio/cgns/_cgns.py
index b94560f..b66b1cc 100644
--- a/src/meshio/cgns/_cgns.py
+++ b/src/meshio/cgns/_cgns.py
@@ -31,7 +31,8 @@ def read(filename):
     # f["Base"]["Zone1"]["GridElements"]["ElementRange"][" data"])
     idx_min, idx_max = f["Base"]["Zone1"]["GridElements"]["ElementRange"][" data"]
     data = f["Base"]["Zone1"]["GridElements"]["ElementConnectivity"][" data"]
-    cells = np.array(data).reshape(idx_max, -1) - 1
+    cells = np.array(data)
+    cells = cells.reshape(idx_max, -1 if idx_max > 0 else 4) - 1
 
     # TODO how to distinguish cell types?
     if cells.shape[1] != 4:
-- 
2.43.0


From 467fb2f1ea251968d048d895ac3c20f68c1b6841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:46 +0000
Subject: [PATCH 140/160] fix: the offsets of VTU cells do not overflow when
 the node indices are small integers

---
 src/meshio/vtu/_vtu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/vtu/_vtu.py b/src/meshio/vtu/_vtu.py
index 3f288dd..bbc4783 100644
--- a/src/meshio/vtu/_vtu.py
+++ b/src/meshio/vtu/_vtu.py
@@ -857,7 +857,7 @@ def write(filename, mesh, binary=True, compression="zlib", header_type=None):
             # offset (points to the first element of the next cell)
             offsets = [
                 v.data.shape[1]
-                * np.arange(1, v.data.shape[0] + 1, dtype=connectivity.dtype)
+                * np.arange(1, v.data.shape[0] + 1, dtype=np.int64)
                 for v in mesh.cells
             ]
             for k in range(1, len(offsets)):
-- 
2.43.0


From 22d2c4d7d632c4cc8a33fd20bc5f2296e0bf70c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:27 +0000
Subject: [PATCH 141/160] fix: writing a time step does not convert the
 caller's cell data in place

---
 src/meshio/xdmf/time_series.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/meshio/xdmf/time_series.py b/src/meshio/xdmf/time_series.py
index a0d2090..098a785 100644
--- a/src/meshio/xdmf/time_series.py
+++ b/src/meshio/xdmf/time_series.py
@@ -316,9 +316,10 @@ class TimeSeriesWriter:
             self.point_data(point_data, grid)
 
         # permit old dict structure, convert it to list of tuples
-        for name, entry in cell_data.items():
-            if isinstance(entry, dict):
-                cell_data[name] = np.array(list(entry.values()))
+        cell_data = {
+            name: list(entry.values()) if isinstance(entry, dict) else entry
+            for name, entry in cell_data.items()
+        }
         if cell_data:
             self.cell_data(cell_data, grid)
 
-- 
2.43.0


From c16845d67736371c872ebf9058ea3c1dfa977939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:15 +0000
Subject: [PATCH 142/160] fix: cell sets of included Abaqus files are kept

---
 src/meshio/abaqus/_abaqus.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/meshio/abaqus/_abaqus.py b/src/meshio/abaqus/_abaqus.py
index 1dfefb0..3058d12 100644
--- a/src/meshio/abaqus/_abaqus.py
+++ b/src/meshio/abaqus/_abaqus.py
@@ -190,6 +190,9 @@ def read_buffer(f):
 
             # Merge contents of external file only if it is containing mesh data
             if len(out.points) > 0:
+                for name, members in out.cell_sets.items():
+                    members = {len(cells) + ic: list(m) for ic, m in enumerate(members)}
+                    cell_sets_raw.setdefault(name, {}).update(members)
                 points, cells = merge(
                     out,
                     points,
@@ -324,11 +327,6 @@ def merge(mesh, points, cells, point_data, cell_data, field_data, point_sets):
     for key, val in mesh.point_sets.items():
         point_sets[key] = [x + new_point_id for x in val]
 
-    # Todo: Add support for merging cell sets
-    # cellblockref = [[] for i in range(cnt-new_cell_id)]
-    # for key, val in mesh.cell_sets.items():
-    #     cell_sets[key] = cellblockref + [np.array([x for x in val[0]])]
-
     return points, cells
 
 
-- 
2.43.0


From cdeafbea7635689167b97a6ae612527cacae2a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:04 +0000
Subject: [PATCH 143/160] fix: data lines of an Abaqus file that look like
 keywords are not taken for them

---
 src/meshio/abaqus/_abaqus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/meshio/abaqus/_abaqus.py b/src/meshio/abaqus/_abaqus.py
index 3058d12..5f3115f 100644
--- a/src/meshio/abaqus/_abaqus.py
+++ b/src/meshio/abaqus/_abaqus.py
@@ -126,8 +126,8 @@ def read_buffer(f):
         if not line:  # EOF
             break
 
-        # Comments
-        if line.startswith("**"):
+        # Comments and data lines of other keywords, such as the heading
+        if line.startswith("**") or not line.lstrip().startswith("*"):
             line = f.readline()
             continue
 
-- 
2.43.0


From d0703de9f584bc9563911c815265494cdfbbe650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:27 +0000
Subject: [PATCH 144/160] fix: Netgen: only the edge segments come in two lines
 per item

---
 src/meshio/netgen/_netgen.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/meshio/netgen/_netgen.py b/src/meshio/netgen/_netgen.py
index 46fe841..1ed5055 100644
--- a/src/meshio/netgen/_netgen.py
+++ b/src/meshio/netgen/_netgen.py
@@ -283,7 +283,8 @@ def read_buffer(f):
             "surfaceelementsuv",
             "volumeelements",
         ]:
-            _read_cells(f, line, cells, cells_index, have_edgesegmentsgi2_in_two_lines)
+            skip = line == "edgesegmentsgi2" and have_edgesegmentsgi2_in_two_lines
+            _read_cells(f, line, cells, cells_index, skip)
         elif line == "endmesh":
             break
 
-- 
2.43.0


From 7ff0ba44ed5a15bdd5eaad9da9d0dee00302fa55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:27 +0000
Subject: [PATCH 145/160] fix: Medit: vertex references of single precision
 files

---
 src/meshio/medit/_medit.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/meshio/medit/_medit.py b/src/meshio/medit/_medit.py
index 32c8860..f372c87 100644
--- a/src/meshio/medit/_medit.py
+++ b/src/meshio/medit/_medit.py
@@ -220,10 +220,11 @@ def read_ascii_buffer(f):
             if dtype is None:
                 raise ReadError("Expected `MeshVersionFormatted` before `Vertices`")
             num_verts = int(f.readline())
+            # the references may exceed what single precision can hold
             out = np.fromfile(
-                f, count=num_verts * (dim + 1), dtype=dtype, sep=" "
+                f, count=num_verts * (dim + 1), dtype=float, sep=" "
             ).reshape(num_verts, dim + 1)
-            points = out[:, :dim]
+            points = out[:, :dim].astype(dtype)
             point_data["medit:ref"] = out[:, dim].astype(int)
         elif items[0] in meshio_from_medit:
             meshio_type, points_per_cell = meshio_from_medit[items[0]]
-- 
2.43.0


From 4a7137100f15687557766f9021246291e8f497ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:05 +0000
Subject: [PATCH 146/160] fix: DOLFIN: backup copies of data files are not data

---
 src/meshio/dolfin/_dolfin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/dolfin/_dolfin.py b/src/meshio/dolfin/_dolfin.py
index 1ab6425..b05500c 100644
--- a/src/meshio/dolfin/_dolfin.py
+++ b/src/meshio/dolfin/_dolfin.py
@@ -94,7 +94,7 @@ def _read_cell_data(filename):
     for f in os.listdir(dir_name):
         # Check if there are files by the name "<filename>_*.xml"; if yes,
         # extract the * pattern and make it the name of the data set.
-        out = re.match(f"{re.escape(basename)}_([^\\.]+)\\.xml", f)
+        out = re.fullmatch(f"{re.escape(basename)}_([^\\.]+)\\.xml", f)
         if not out:
             continue
         name = out.group(1)
-- 
2.43.0


From 8b41dd720b425ce504e3d5412b569b6c59e4ddf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:14 +0000
Subject: [PATCH 147/160] fix: Tecplot: names of variables on further lines
 keep their case

---
 src/meshio/tecplot/_tecplot.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/meshio/tecplot/_tecplot.py b/src/meshio/tecplot/_tecplot.py
index 68b6c21..295631c 100644
--- a/src/meshio/tecplot/_tecplot.py
+++ b/src/meshio/tecplot/_tecplot.py
@@ -4,6 +4,8 @@ I/O for Tecplot ASCII data format, cf.
 <http://paulbourke.net/dataformats/tp/>.
 """
 
+import re
+
 import numpy as np
 
 from ..__about__ import __version__ as version
@@ -139,12 +141,12 @@ def read_buffer(f):
             # variable name is double quoted
             lines = [line]
             i = f.tell()
-            line = readline(f).upper()
+            line = readline(f)
             while True:
                 if line.startswith('"'):
                     lines += [line]
                     i = f.tell()
-                    line = readline(f).upper()
+                    line = readline(f)
                 else:
                     f.seek(i)
                     break
-- 
2.43.0


From 2e307ff8a293439954b57ee0b9b1b2040de34c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:14 +0000
Subject: [PATCH 148/160] fix: Tecplot: variable names of any number of words

---
 src/meshio/tecplot/_tecplot.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/src/meshio/tecplot/_tecplot.py b/src/meshio/tecplot/_tecplot.py
index 295631c..95afce8 100644
--- a/src/meshio/tecplot/_tecplot.py
+++ b/src/meshio/tecplot/_tecplot.py
@@ -237,20 +237,12 @@ def read_buffer(f):
 
 def _read_variables(line):
     # Gather variables in a list
-    line = line.split("=")[1]
-    line = [x for x in line.replace(",", " ").split()]
-    variables = []
-
-    i = 0
-    while i < len(line):
-        if '"' in line[i] and not (line[i].startswith('"') and line[i].endswith('"')):
-            var = f"{line[i]}_{line[i + 1]}"
-            i += 1
-        else:
-            var = line[i]
-
-        variables.append(var.replace('"', ""))
-        i += 1
+    line = line.split("=", 1)[1]
+    # names are quoted if they contain blanks or commas
+    variables = [
+        "_".join((quoted or plain).split())
+        for quoted, plain in re.findall(r'"([^"]*)"|([^\s,"]+)', line)
+    ]
 
     # Check that at least X and Y are defined
     if "X" not in variables and "x" not in variables:
-- 
2.43.0


From 82a7550d578f10f5166f8eb0f1a68728146d674d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:14 +0000
Subject: [PATCH 149/160] fix: Tecplot: the values of a point may be spread
 over several lines

---
 src/meshio/tecplot/_tecplot.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/meshio/tecplot/_tecplot.py b/src/meshio/tecplot/_tecplot.py
index 95afce8..1e12abd 100644
--- a/src/meshio/tecplot/_tecplot.py
+++ b/src/meshio/tecplot/_tecplot.py
@@ -191,9 +191,8 @@ def read_buffer(f):
             num_data = [num_cells if i else num_nodes for i in is_cell_centered]
             data, cells = _read_zone_data(
                 f,
-                sum(num_data) if zone_format == "FEBLOCK" else num_nodes,
+                sum(num_data) if zone_format == "FEBLOCK" else num_nodes * len(variables),
                 num_cells,
-                zone_format,
             )
 
             break  # Only support one zone, no need to read the rest
@@ -214,7 +213,7 @@ def read_buffer(f):
     data = (
         np.split(np.concatenate(data), np.cumsum(num_data[:-1]))
         if zone_format == "FEBLOCK"
-        else np.transpose(data)
+        else np.concatenate(data).reshape(-1, len(variables)).T
     )
 
     point_data, cell_data = {}, {}
@@ -362,13 +361,13 @@ def _parse_fezone(zone, variables):
     return num_nodes, num_cells, zone_format, zone_type, is_cell_centered
 
 
-def _read_zone_data(f, num_data, num_cells, zone_format):
+def _read_zone_data(f, num_data, num_cells):
     data, count = [], 0
     while count < num_data:
         line = _readline_or_fail(f).split()
         if line:
             data += [[float(x) for x in line]]
-            count += len(line) if zone_format == "FEBLOCK" else 1
+            count += len(line)
 
     cells, count = [], 0
     while count < num_cells:
-- 
2.43.0


From 23128df136a46f25f7e5684969c81924e4acc754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:36 +0000
Subject: [PATCH 150/160] fix: Exodus: node order of HEX20 and HEX27

---
 src/meshio/exodus/_exodus.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/meshio/exodus/_exodus.py b/src/meshio/exodus/_exodus.py
index 4959e36..8dcbe92 100644
--- a/src/meshio/exodus/_exodus.py
+++ b/src/meshio/exodus/_exodus.py
@@ -66,6 +66,18 @@ exodus_to_meshio_type = {
 }
 meshio_to_exodus_type = {v: k for k, v in exodus_to_meshio_type.items()}
 
+# Exodus lists the nodes on the vertical edges before those on the top edges, and the
+# center first
+exodus_to_meshio_order = {
+    "hexahedron20": [*range(12), *range(16, 20), *range(12, 16)],
+    "hexahedron27": [
+        *range(12),
+        *range(16, 20),
+        *range(12, 16),
+        *[23, 24, 25, 26, 21, 22, 20],
+    ],
+}
+
 
 def read(filename):  # noqa: C901
     import netCDF4
@@ -106,7 +118,10 @@ def read(filename):  # noqa: C901
                     info += [b"".join(c).decode("UTF-8") for c in val[:]]
             elif key[:7] == "connect":
                 meshio_type = exodus_to_meshio_type[value.elem_type.upper()]
-                cells.append((meshio_type, value[:] - 1))
+                data = value[:] - 1
+                if meshio_type in exodus_to_meshio_order:
+                    data = data[:, exodus_to_meshio_order[meshio_type]]
+                cells.append((meshio_type, data))
             elif key == "coord":
                 points = nc.variables["coord"][:].T
             elif key == "coordx":
@@ -320,8 +335,12 @@ def write(filename, mesh):
             dtype = numpy_to_exodus_dtype[cell_block.data.dtype.name]
             data = rootgrp.createVariable(f"connect{k + 1}", dtype, (dim1, dim2))
             data.elem_type = meshio_to_exodus_type[cell_block.type]
+            cell_nodes = cell_block.data
+            if cell_block.type in exodus_to_meshio_order:
+                order = np.argsort(exodus_to_meshio_order[cell_block.type])
+                cell_nodes = cell_nodes[:, order]
             # Exodus is 1-based
-            data[:] = cell_block.data + 1
+            data[:] = cell_nodes + 1
 
         # point data
         # The variable `name_nod_var` holds the names and indices of the node variables, the
-- 
2.43.0


From cd2eff6d3efe2fe9d0eeaf6fe512d77062f41826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:43 +0000
Subject: [PATCH 151/160] fix: Exodus: names of node sets if some set is empty

---
 src/meshio/exodus/_exodus.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/meshio/exodus/_exodus.py b/src/meshio/exodus/_exodus.py
index 8dcbe92..d9182c0 100644
--- a/src/meshio/exodus/_exodus.py
+++ b/src/meshio/exodus/_exodus.py
@@ -99,7 +99,7 @@ def read(filename):  # noqa: C901
         cells = []
         ns_names = []
         # eb_names = []
-        ns = []
+        ns = {}
         point_sets = {}
         info = []
 
@@ -164,7 +164,8 @@ def read(filename):  # noqa: C901
             #     value.set_auto_mask(False)
             #     eb_names = [b"".join(c).decode("UTF-8") for c in value[:]]
             elif key.startswith("node_ns"):  # Expected keys: node_ns1, node_ns2
-                ns.append(value[:] - 1)  # Exodus is 1-based
+                # empty sets have a name, but no variable
+                ns[int(key[7:]) - 1] = value[:] - 1  # Exodus is 1-based
 
         # merge element block data; can't handle blocks yet
         for k, value in cd.items():
@@ -192,7 +193,7 @@ def read(filename):  # noqa: C901
                 cell_data[name].append(data[k : k + n])
             k += n
 
-        point_sets = {name: dat for name, dat in zip(ns_names, ns)}
+        point_sets = {ns_names[k]: dat for k, dat in ns.items() if k < len(ns_names)}
 
     return Mesh(
         points,
-- 
2.43.0


From 0e668cca82bbb6cde706265e7136ed7f16f51668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:43 +0000
Subject: [PATCH 152/160] fix: Exodus: element variables that exist on some of
 the blocks only

---
 src/meshio/exodus/_exodus.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/meshio/exodus/_exodus.py b/src/meshio/exodus/_exodus.py
index d9182c0..f29bfd2 100644
--- a/src/meshio/exodus/_exodus.py
+++ b/src/meshio/exodus/_exodus.py
@@ -97,6 +97,7 @@ def read(filename):  # noqa: C901
         pd = {}
         cd = {}
         cells = []
+        block_ids = []
         ns_names = []
         # eb_names = []
         ns = {}
@@ -122,6 +123,7 @@ def read(filename):  # noqa: C901
                 if meshio_type in exodus_to_meshio_order:
                     data = data[:, exodus_to_meshio_order[meshio_type]]
                 cells.append((meshio_type, data))
+                block_ids.append(key[7:])
             elif key == "coord":
                 points = nc.variables["coord"][:].T
             elif key == "coordx":
@@ -147,7 +149,7 @@ def read(filename):  # noqa: C901
                 # eb: element block
                 m = re.match("vals_elem_var(\\d+)?(?:eb(\\d+))?", key)
                 idx = 0 if m.group(1) is None else int(m.group(1)) - 1
-                block = 0 if m.group(2) is None else int(m.group(2)) - 1
+                block = m.group(2)
 
                 value.set_auto_mask(False)
                 # For now only take the first value
@@ -167,10 +169,6 @@ def read(filename):  # noqa: C901
                 # empty sets have a name, but no variable
                 ns[int(key[7:]) - 1] = value[:] - 1  # Exodus is 1-based
 
-        # merge element block data; can't handle blocks yet
-        for k, value in cd.items():
-            cd[k] = np.concatenate(list(value.values()))
-
         # Check if there are any <name>R, <name>Z tuples or <name>X, <name>Y, <name>Z
         # triplets in the point data. If yes, they belong together.
         single, double, triple = categorize(point_data_names)
@@ -184,14 +182,19 @@ def read(filename):  # noqa: C901
             point_data[name] = np.column_stack([pd[idx0], pd[idx1], pd[idx2]])
 
         cell_data = {}
-        k = 0
-        for _, cell in cells:
-            n = len(cell)
-            for name, data in zip(cell_data_names, cd.values()):
-                if name not in cell_data:
-                    cell_data[name] = []
-                cell_data[name].append(data[k : k + n])
-            k += n
+        for k, name in enumerate(cell_data_names):
+            if k not in cd:
+                continue
+            if None in cd[k]:
+                # one array for all blocks
+                offsets = np.cumsum([len(cell) for _, cell in cells])[:-1]
+                cell_data[name] = np.split(cd[k][None], offsets)
+                continue
+            # a variable need not exist on all blocks
+            cell_data[name] = [
+                cd[k][b] if b in cd[k] else np.full(len(cell), np.nan)
+                for b, (_, cell) in zip(block_ids, cells)
+            ]
 
         point_sets = {ns_names[k]: dat for k, dat in ns.items() if k < len(ns_names)}
 
-- 
2.43.0


From 957cbdaebc82f99b987794d1ec2eeb3b01212de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:38 +0000
Subject: [PATCH 153/160] fix: MED: cell families that are given for some cell
 types only

---
 src/meshio/med/_med.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/meshio/med/_med.py b/src/meshio/med/_med.py
index 5357e65..5f0aa9c 100644
--- a/src/meshio/med/_med.py
+++ b/src/meshio/med/_med.py
@@ -82,6 +82,7 @@ def read(filename):
     # CellBlock
     cells = []
     cell_types = []
+    cell_tag_blocks = []
     med_cells = mesh["MAI"]
     for med_cell_type, med_cell_type_group in med_cells.items():
         cell_type = med_to_meshio_type[med_cell_type]
@@ -91,12 +92,14 @@ def read(filename):
         num_nodes = num_nodes_per_cell[cell_type]
         cells += [(cell_type, nod[()].reshape(n_cells, num_nodes, order="F") - 1)]
 
-        # Cell tags
+        # Cell tags; cells without FAM are all in family 0
         if "FAM" in med_cell_type_group:
             tags = med_cell_type_group["FAM"][()]
-            if "cell_tags" not in cell_data:
-                cell_data["cell_tags"] = []
-            cell_data["cell_tags"].append(tags)
+        else:
+            tags = np.zeros(n_cells, dtype=int)
+        cell_tag_blocks.append(tags)
+    if any("FAM" in group for group in med_cells.values()):
+        cell_data["cell_tags"] = cell_tag_blocks
 
     # Information for cell tags
     cell_tags = {}
-- 
2.43.0


From 03621401478937aff8c3c1bfd9cccbeab5dc7b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:38 +0000
Subject: [PATCH 154/160] fix: MED: families without groups

---
 src/meshio/med/_med.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/meshio/med/_med.py b/src/meshio/med/_med.py
index 5f0aa9c..3602f35 100644
--- a/src/meshio/med/_med.py
+++ b/src/meshio/med/_med.py
@@ -214,6 +214,9 @@ def _read_families(fas_data):
     families = {}
     for _, node_set in fas_data.items():
         set_id = node_set.attrs["NUM"]  # unique set id
+        if "GRO" not in node_set:  # a family need not belong to a group
+            families[set_id] = []
+            continue
         n_subsets = node_set["GRO"].attrs["NBR"]  # number of subsets
         nom_dataset = node_set["GRO"]["NOM"][()]  # (n_subsets, 80) of int8
         name = [None] * n_subsets
-- 
2.43.0


From 465f59cad9981975f27d4ea6d05244eaca5bb7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:38 +0000
Subject: [PATCH 155/160] fix: MED: fields on some of the cell types

---
 src/meshio/med/_med.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/meshio/med/_med.py b/src/meshio/med/_med.py
index 3602f35..e4486a7 100644
--- a/src/meshio/med/_med.py
+++ b/src/meshio/med/_med.py
@@ -114,6 +114,12 @@ def read(filename):
     else:
         profiles = f["PROFILS"] if "PROFILS" in f else None
         _read_data(fields, profiles, cell_types, point_data, cell_data, field_data)
+        # fields need not be defined on all cell types
+        for data in cell_data.values():
+            shape = next(values.shape[1:] for values in data if values is not None)
+            for k, values in enumerate(data):
+                if values is None:
+                    data[k] = np.full((len(cells[k][1]), *shape), np.nan)
 
     # Construct the mesh object
     mesh = Mesh(
-- 
2.43.0


From 2f5b75de501a7481cdc94cb7028564da67380709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:38 +0000
Subject: [PATCH 156/160] fix: MED: component names with blanks

---
 src/meshio/med/_med.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/meshio/med/_med.py b/src/meshio/med/_med.py
index e4486a7..6cd29f5 100644
--- a/src/meshio/med/_med.py
+++ b/src/meshio/med/_med.py
@@ -133,7 +133,12 @@ def read(filename):
 def _read_data(fields, profiles, cell_types, point_data, cell_data, field_data):
     component_names = {}
     for name, data in fields.items():
-        nom = data.attrs["NOM"].decode().split() if "NOM" in data.attrs else None
+        nom = None
+        if "NOM" in data.attrs:
+            # each name takes 16 characters, and may contain blanks
+            nom = data.attrs["NOM"].decode()
+            nom = [nom[i : i + 16].strip() for i in range(0, len(nom), 16)]
+            nom = [n for n in nom if n]
 
         time_step = sorted(data.keys())  # associated time-steps
         if len(time_step) == 1:  # single time-step
-- 
2.43.0


From c13beb361bb0a03b9cd09e6e15ac0ebd38f23ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:38 +0000
Subject: [PATCH 157/160] fix: H5M: node ids need not start from 1

---
 src/meshio/h5m/_h5m.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/meshio/h5m/_h5m.py b/src/meshio/h5m/_h5m.py
index 226fbc2..a7b9c85 100644
--- a/src/meshio/h5m/_h5m.py
+++ b/src/meshio/h5m/_h5m.py
@@ -25,6 +25,8 @@ def read(filename):
     dset = f["tstt"]
 
     points = dset["nodes"]["coordinates"][()]
+    # the id of the first node
+    start_id = dset["nodes"]["coordinates"].attrs.get("start_id", 1)
     # read point data
     point_data = {}
     if "tags" in dset["nodes"]:
@@ -51,8 +53,7 @@ def read(filename):
     for h5m_type, data in dset["elements"].items():
         meshio_type = h5m_to_meshio_type[h5m_type]
         conn = data["connectivity"]
-        # Note that the indices are off by 1 in h5m.
-        cells.append(CellBlock(meshio_type, conn[()] - 1))
+        cells.append(CellBlock(meshio_type, conn[()] - start_id))
 
         # TODO bring cell data back
         # if 'tags' in data:
-- 
2.43.0


From 16ca4928fc743d53616b0dcff28e6b7c95eb176f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:38 +0000
Subject: [PATCH 158/160] fix: CGNS: element type and range of the section

---
 src/meshio/cgns/_cgns.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/meshio/cgns/_cgns.py b/src/meshio/cgns/_cgns.py
index b66b1cc..536efd5 100644
--- a/src/meshio/cgns/_cgns.py
+++ b/src/meshio/cgns/_cgns.py
@@ -28,14 +28,17 @@ def read(filename):
     z = f["Base"]["Zone1"]["GridCoordinates"]["CoordinateZ"][" data"]
     points = np.column_stack([x, y, z])
 
+    elements = f["Base"]["Zone1"]["GridElements"]
     # f["Base"]["Zone1"]["GridElements"]["ElementRange"][" data"])
-    idx_min, idx_max = f["Base"]["Zone1"]["GridElements"]["ElementRange"][" data"]
-    data = f["Base"]["Zone1"]["GridElements"]["ElementConnectivity"][" data"]
+    idx_min, idx_max = elements["ElementRange"][" data"]
+    num_cells = idx_max - idx_min + 1
+    data = elements["ElementConnectivity"][" data"]
     cells = np.array(data)
-    cells = cells.reshape(idx_max, -1 if idx_max > 0 else 4) - 1
+    cells = cells.reshape(num_cells, -1 if num_cells > 0 else 4) - 1
 
-    # TODO how to distinguish cell types?
-    if cells.shape[1] != 4:
+    # The element type, if given, is the first number of the section; 10 is TETRA_4
+    element_type = elements[" data"][0] if " data" in elements else 10
+    if element_type != 10 or cells.shape[1] != 4:
         raise ReadError("Can only read tetrahedra.")
     cells = [("tetra", cells)]
 
-- 
2.43.0


From 118dac7b45385d8ca063338afa5027d9839c9be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:06 +0000
Subject: [PATCH 159/160] fix: PLY: polygons of more than 255 nodes

---
 src/meshio/ply/_ply.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/meshio/ply/_ply.py b/src/meshio/ply/_ply.py
index ea71edd..00bfb67 100644
--- a/src/meshio/ply/_ply.py
+++ b/src/meshio/ply/_ply.py
@@ -486,7 +486,14 @@ def write(filename, mesh: Mesh, binary: bool = True):  # noqa: C901
 
             if cell_dtype is not None:
                 ply_type = numpy_to_ply_dtype[cell_dtype]
-                fh.write(f"property list uint8 {ply_type} vertex_indices\n".encode())
+                max_count = max(
+                    c.data.shape[1] for c in cells if c.type in legal_cell_types
+                )
+                count_dtype = np.dtype(np.uint8 if max_count < 256 else np.int32)
+                count_type = numpy_to_ply_dtype[count_dtype]
+                fh.write(
+                    f"property list {count_type} {ply_type} vertex_indices\n".encode()
+                )
 
         # TODO other cell data
         fh.write(b"end_header\n")
@@ -507,7 +514,7 @@ def write(filename, mesh: Mesh, binary: bool = True):  # noqa: C901
                 # prepend with count
                 d = cell_block.data
                 out = np.rec.fromarrays(
-                    [np.broadcast_to(np.uint8(d.shape[1]), d.shape[0]), *d.T]
+                    [np.broadcast_to(count_dtype.type(d.shape[1]), d.shape[0]), *d.T]
                 )
                 fh.write(out.tobytes())
         else:
@@ -530,13 +537,10 @@ def write(filename, mesh: Mesh, binary: bool = True):  # noqa: C901
                 #                if cell_type not in cell_type_to_count.keys():
                 #                    continue
                 d = cell_block.data
-                out = np.column_stack(
-                    [np.full(d.shape[0], d.shape[1], dtype=d.dtype), d]
-                )
                 # savetxt is slower
                 # np.savetxt(fh, out, "%d  %d %d %d")
-                fmt = " ".join(["{}"] * out.shape[1])
-                out = "\n".join([fmt.format(*row) for row in out]) + "\n"
+                fmt = " ".join([str(d.shape[1])] + ["{}"] * d.shape[1])
+                out = "\n".join([fmt.format(*row) for row in d]) + "\n"
                 fh.write(out.encode())
 
 
-- 
2.43.0


From e49f7ace246b51021bae4856ad7e6765dd2bb584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:39 +0000
Subject: [PATCH 160/160] fix: node numbers counted from one in narrow integer
 types

---
 src/meshio/_common.py          |  7 +++++++
 src/meshio/ansys/_ansys.py     |  3 ++-
 src/meshio/avsucd/_avsucd.py   |  4 ++--
 src/meshio/cgns/_cgns.py       |  4 ++--
 src/meshio/exodus/_exodus.py   | 15 ++++++++-------
 src/meshio/flac3d/_flac3d.py   |  6 +++---
 src/meshio/gmsh/_gmsh22.py     | 15 ++++++++++-----
 src/meshio/gmsh/_gmsh40.py     |  9 +++++++--
 src/meshio/gmsh/_gmsh41.py     | 10 ++++++++--
 src/meshio/h5m/_h5m.py         |  4 ++--
 src/meshio/mdpa/_mdpa.py       |  4 ++--
 src/meshio/med/_med.py         |  4 ++--
 src/meshio/medit/_medit.py     |  6 +++---
 src/meshio/nastran/_nastran.py |  4 ++--
 src/meshio/netgen/_netgen.py   |  4 ++--
 src/meshio/obj/_obj.py         |  3 ++-
 src/meshio/tecplot/_tecplot.py |  4 ++--
 src/meshio/ugrid/_ugrid.py     |  6 +++---
 18 files changed, 69 insertions(+), 43 deletions(-)

diff --git a/src/meshio/_common.py b/src/meshio/_common.py
index a4c374a..78a8ce1 100644
--- a/src/meshio/_common.py
+++ b/src/meshio/_common.py
@@ -101,6 +101,13 @@ def write_xml(filename, root):
     tree.write(filename)
 
 
+def one_based(indices):
+    """Count from one; narrow integer types might not hold the result."""
+    if indices.dtype.itemsize < 4:
+        indices = indices.astype(np.int32)
+    return indices + 1
+
+
 def _pick_first_int_data(data):
     # pick out material
     keys = list(data.keys())
diff --git a/src/meshio/ansys/_ansys.py b/src/meshio/ansys/_ansys.py
index 0ac87e6..b4ce92d 100644
--- a/src/meshio/ansys/_ansys.py
+++ b/src/meshio/ansys/_ansys.py
@@ -476,7 +476,8 @@ def write(filename, mesh, binary=True):
                 fh.write(b"\n)")
                 fh.write((f"End of Binary Section {key})\n").encode())
             else:
-                np.savetxt(fh, values + first_node_index, fmt="%x")
+                # narrow integer types might not hold the sum
+                np.savetxt(fh, values.astype(np.int64) + first_node_index, fmt="%x")
                 fh.write(b"))\n")
             first_index = last_index + 1
 
diff --git a/src/meshio/avsucd/_avsucd.py b/src/meshio/avsucd/_avsucd.py
index 22be3e2..3af2bae 100644
--- a/src/meshio/avsucd/_avsucd.py
+++ b/src/meshio/avsucd/_avsucd.py
@@ -6,7 +6,7 @@ I/O for AVS-UCD format, cf.
 import numpy as np
 
 from ..__about__ import __version__ as version
-from .._common import _pick_first_int_data, warn
+from .._common import _pick_first_int_data, one_based, warn
 from .._files import open_file
 from .._helpers import register_format
 from .._mesh import CellBlock, Mesh
@@ -223,7 +223,7 @@ def _write_cells(f, cells, material):
         cell_type = cell_block.type
         v = cell_block.data
         for cell in v[:, meshio_to_avsucd_order[cell_type]]:
-            cell_str = " ".join(str(c) for c in cell + 1)
+            cell_str = " ".join(str(c) for c in one_based(cell))
             f.write(
                 f"{i + 1} {material[i]} {meshio_to_avsucd_type[cell_type]} {cell_str}\n"
             )
diff --git a/src/meshio/cgns/_cgns.py b/src/meshio/cgns/_cgns.py
index 536efd5..6eaf620 100644
--- a/src/meshio/cgns/_cgns.py
+++ b/src/meshio/cgns/_cgns.py
@@ -6,7 +6,7 @@ TODO link to specification?
 
 import numpy as np
 
-from .._common import warn
+from .._common import one_based, warn
 from .._exceptions import ReadError, WriteError
 from .._helpers import register_format
 from .._mesh import Mesh
@@ -109,7 +109,7 @@ def _write(f, mesh, compression, compression_opts):
         if cell_block.type == "tetra":
             conn.create_dataset(
                 " data",
-                data=cell_block.data.reshape(-1) + 1,
+                data=one_based(cell_block.data.reshape(-1)),
                 compression=compression,
                 compression_opts=compression_opts,
             )
diff --git a/src/meshio/exodus/_exodus.py b/src/meshio/exodus/_exodus.py
index f29bfd2..43f69d0 100644
--- a/src/meshio/exodus/_exodus.py
+++ b/src/meshio/exodus/_exodus.py
@@ -12,7 +12,7 @@ import re
 import numpy as np
 
 from ..__about__ import __version__
-from .._common import warn
+from .._common import one_based, warn
 from .._exceptions import ReadError, WriteError
 from .._files import is_buffer
 from .._helpers import register_format
@@ -336,15 +336,15 @@ def write(filename, mesh):
             dim2 = f"num_nod_per_el{k + 1}"
             rootgrp.createDimension(dim1, cell_block.data.shape[0])
             rootgrp.createDimension(dim2, cell_block.data.shape[1])
-            dtype = numpy_to_exodus_dtype[cell_block.data.dtype.name]
+            # Exodus is 1-based
+            cell_nodes = one_based(cell_block.data)
+            dtype = numpy_to_exodus_dtype[cell_nodes.dtype.name]
             data = rootgrp.createVariable(f"connect{k + 1}", dtype, (dim1, dim2))
             data.elem_type = meshio_to_exodus_type[cell_block.type]
-            cell_nodes = cell_block.data
             if cell_block.type in exodus_to_meshio_order:
                 order = np.argsort(exodus_to_meshio_order[cell_block.type])
                 cell_nodes = cell_nodes[:, order]
-            # Exodus is 1-based
-            data[:] = cell_nodes + 1
+            data[:] = cell_nodes
 
         # point data
         # The variable `name_nod_var` holds the names and indices of the node variables, the
@@ -391,10 +391,11 @@ def write(filename, mesh):
             for k, (key, values) in enumerate(mesh.point_sets.items()):
                 dim1 = f"num_nod_ns{k + 1}"
                 rootgrp.createDimension(dim1, values.shape[0])
+                # Exodus is 1-based
+                values = one_based(values)
                 dtype = numpy_to_exodus_dtype[values.dtype.name]
                 data = rootgrp.createVariable(f"node_ns{k + 1}", dtype, (dim1,))
-                # Exodus is 1-based
-                data[:] = values + 1
+                data[:] = values
 
 
 register_format("exodus", [".e", ".exo", ".ex2"], read, {"exodus": write})
diff --git a/src/meshio/flac3d/_flac3d.py b/src/meshio/flac3d/_flac3d.py
index a05ed4b..6ed21a1 100644
--- a/src/meshio/flac3d/_flac3d.py
+++ b/src/meshio/flac3d/_flac3d.py
@@ -11,7 +11,7 @@ import time
 import numpy as np
 
 from ..__about__ import __version__ as version
-from .._common import warn
+from .._common import one_based, warn
 from .._exceptions import ReadError
 from .._files import is_buffer, open_file
 from .._helpers import register_format
@@ -469,7 +469,7 @@ def _write_cells(f, cells, flag: str, binary: bool, gid):
                 (
                     np.arange(1, num_cells + 1) + gid,
                     np.full(num_cells, num_verts),
-                    cdata + 1,
+                    one_based(cdata),
                 )
             ).astype(int)
             f.write(struct.pack(f"<{(num_verts + 2) * num_cells}I", *tmp.ravel()))
@@ -481,7 +481,7 @@ def _write_cells(f, cells, flag: str, binary: bool, gid):
         f.write(f"* {entity}\n")
         for ctype, cdata in cells:
             fmt = f"{abbrev} {{}} {{}} " + " ".join(["{}"] * cdata.shape[1]) + "\n"
-            for entry in cdata + 1:
+            for entry in one_based(cdata):
                 gid += 1
                 f.write(fmt.format(meshio_to_flac3d_type[ctype], gid, *entry))
 
diff --git a/src/meshio/gmsh/_gmsh22.py b/src/meshio/gmsh/_gmsh22.py
index a9399ad..2da107c 100644
--- a/src/meshio/gmsh/_gmsh22.py
+++ b/src/meshio/gmsh/_gmsh22.py
@@ -7,7 +7,13 @@ from __future__ import annotations
 
 import numpy as np
 
-from .._common import cell_data_from_raw, num_nodes_per_cell, raw_from_cell_data, warn
+from .._common import (
+    cell_data_from_raw,
+    num_nodes_per_cell,
+    one_based,
+    raw_from_cell_data,
+    warn,
+)
 from .._exceptions import ReadError
 from .._mesh import CellBlock, Mesh
 from .common import (
@@ -362,7 +368,7 @@ def _write_elements(fh, cells: list[CellBlock], tag_data, binary: bool):
             # actual data
             a = np.arange(len(node_idcs), dtype=c_int)[:, np.newaxis]
             a += 1 + consecutive_index
-            array = np.hstack([a, fcd, node_idcs + 1])
+            array = np.hstack([a, fcd, one_based(node_idcs)])
             if array.dtype != c_int:
                 array = array.astype(c_int)
             array.tofile(fh)
@@ -374,13 +380,12 @@ def _write_elements(fh, cells: list[CellBlock], tag_data, binary: bool):
                 + str(fcd.shape[1])
                 + " {} {}\n"
             )
-            for i, c in enumerate(node_idcs):
+            for i, c in enumerate(one_based(node_idcs)):
                 fh.write(
                     form.format(
                         consecutive_index + i + 1,
                         " ".join([str(val) for val in fcd[i]]),
-                        # a bit clumsy for `c+1`, but if c is uint64, c+1 is float64
-                        " ".join([str(cc) for cc in c + np.array(1, dtype=c.dtype)]),
+                        " ".join([str(cc) for cc in c]),
                     ).encode()
                 )
 
diff --git a/src/meshio/gmsh/_gmsh40.py b/src/meshio/gmsh/_gmsh40.py
index 7135c76..dd6638b 100644
--- a/src/meshio/gmsh/_gmsh40.py
+++ b/src/meshio/gmsh/_gmsh40.py
@@ -9,7 +9,12 @@ from functools import partial
 
 import numpy as np
 
-from .._common import cell_data_from_raw, num_nodes_per_cell, raw_from_cell_data
+from .._common import (
+    cell_data_from_raw,
+    num_nodes_per_cell,
+    one_based,
+    raw_from_cell_data,
+)
 from .._exceptions import ReadError
 from .._mesh import CellBlock, Mesh
 from .common import (
@@ -380,7 +385,7 @@ def _write_elements(fh, cell_blocks: list[CellBlock], binary: bool):
                 ).encode()
             )
             # increment indices by one to conform with gmsh standard
-            idcs = cell_data + 1
+            idcs = one_based(cell_data)
 
             fmt = " ".join(["{}"] * (num_nodes_per_cell[cell_type] + 1)) + "\n"
             for idx in idcs:
diff --git a/src/meshio/gmsh/_gmsh41.py b/src/meshio/gmsh/_gmsh41.py
index ebf9a1a..e77ea05 100644
--- a/src/meshio/gmsh/_gmsh41.py
+++ b/src/meshio/gmsh/_gmsh41.py
@@ -7,7 +7,13 @@ from functools import partial
 
 import numpy as np
 
-from .._common import cell_data_from_raw, num_nodes_per_cell, raw_from_cell_data, warn
+from .._common import (
+    cell_data_from_raw,
+    num_nodes_per_cell,
+    one_based,
+    raw_from_cell_data,
+    warn,
+)
 from .._exceptions import ReadError, WriteError
 from .._mesh import CellBlock, Mesh
 from .common import (
@@ -736,7 +742,7 @@ def _write_elements(fh, cells, tag_data, binary: bool) -> None:
             np.savetxt(
                 fh,
                 # Gmsh indexes from 1 not 0
-                np.column_stack([np.arange(tag0, tag0 + n), node_idcs + 1]),
+                np.column_stack([np.arange(tag0, tag0 + n), one_based(node_idcs)]),
                 "%d",
                 " ",
             )
diff --git a/src/meshio/h5m/_h5m.py b/src/meshio/h5m/_h5m.py
index a7b9c85..53f3c6f 100644
--- a/src/meshio/h5m/_h5m.py
+++ b/src/meshio/h5m/_h5m.py
@@ -8,7 +8,7 @@ from datetime import datetime
 import numpy as np
 
 from .. import __about__
-from .._common import warn
+from .._common import one_based, warn
 from .._helpers import register_format
 from .._mesh import CellBlock, Mesh
 
@@ -250,7 +250,7 @@ def _write(f, mesh, add_global_ids, compression, compression_opts):
         # h5m node indices are 1-based
         conn = elem_group.create_dataset(
             "connectivity",
-            data=(data + 1),
+            data=one_based(data),
             compression=compression,
             compression_opts=compression_opts,
         )
diff --git a/src/meshio/mdpa/_mdpa.py b/src/meshio/mdpa/_mdpa.py
index 4b22f48..a0390b2 100644
--- a/src/meshio/mdpa/_mdpa.py
+++ b/src/meshio/mdpa/_mdpa.py
@@ -8,7 +8,7 @@ The MDPA format is unsuitable for fast consumption, this is why:
 
 import numpy as np
 
-from .._common import num_nodes_per_cell, raw_from_cell_data, warn
+from .._common import num_nodes_per_cell, one_based, raw_from_cell_data, warn
 from .._exceptions import ReadError, WriteError
 from .._files import open_file
 from .._helpers import register_format
@@ -409,7 +409,7 @@ def _write_elements_and_conditions(fh, cells, tag_data, binary=False, dimension=
         fcd = np.empty((len(node_idcs), 0), dtype=np.int32)
         for k, c in enumerate(node_idcs):
             a1 = " ".join([str(val) for val in fcd[k]])
-            a2 = " ".join([str(cc) for cc in c + 1])
+            a2 = " ".join([str(cc) for cc in one_based(c)])
             fh.write(
                 f" {consecutive_index + k + 1} {fcd.shape[1]} {a1} {a2}\n".encode()
             )
diff --git a/src/meshio/med/_med.py b/src/meshio/med/_med.py
index 6cd29f5..b8423c5 100644
--- a/src/meshio/med/_med.py
+++ b/src/meshio/med/_med.py
@@ -5,7 +5,7 @@ I/O for MED/Salome, cf.
 
 import numpy as np
 
-from .._common import num_nodes_per_cell
+from .._common import num_nodes_per_cell, one_based
 from .._exceptions import ReadError, WriteError
 from .._helpers import register_format
 from .._mesh import Mesh
@@ -309,7 +309,7 @@ def _write(f, mesh):
         med_cells.attrs.create("CGT", 1)
         med_cells.attrs.create("CGS", 1)
         med_cells.attrs.create("PFL", np.bytes_(profile))
-        nod = med_cells.create_dataset("NOD", data=cells.flatten(order="F") + 1)
+        nod = med_cells.create_dataset("NOD", data=one_based(cells.flatten(order="F")))
         nod.attrs.create("CGT", 1)
         nod.attrs.create("NBR", len(cells))
 
diff --git a/src/meshio/medit/_medit.py b/src/meshio/medit/_medit.py
index f372c87..8ce8c14 100644
--- a/src/meshio/medit/_medit.py
+++ b/src/meshio/medit/_medit.py
@@ -9,7 +9,7 @@ from ctypes import c_double, c_float
 
 import numpy as np
 
-from .._common import _pick_first_int_data, warn
+from .._common import _pick_first_int_data, one_based, warn
 from .._exceptions import ReadError
 from .._files import open_file
 from .._helpers import register_format
@@ -378,7 +378,7 @@ def write_ascii_file(filename, mesh, float_fmt=".16e"):
 
             fmt = " ".join(["{:d}"] * (num + 1)) + "\n"
             # adapt 1-base
-            for d, label in zip(data + 1, labels):
+            for d, label in zip(one_based(data), labels):
                 fh.write(fmt.format(*d, label).encode())
 
         fh.write(b"\nEnd\n")
@@ -513,7 +513,7 @@ def write_binary_file(f, mesh):
             tmp_array = np.empty(num_cells, dtype=dtype)
             i = 0
             for col_type in dtype.names[:-1]:
-                tmp_array[col_type] = cell_block.data[:, i] + 1
+                tmp_array[col_type] = one_based(cell_block.data[:, i])
                 i += 1
 
             tmp_array[dtype.names[-1]] = labels
diff --git a/src/meshio/nastran/_nastran.py b/src/meshio/nastran/_nastran.py
index fe7baac..376c0dd 100644
--- a/src/meshio/nastran/_nastran.py
+++ b/src/meshio/nastran/_nastran.py
@@ -7,7 +7,7 @@ from __future__ import annotations
 import numpy as np
 
 from ..__about__ import __version__
-from .._common import num_nodes_per_cell, warn
+from .._common import num_nodes_per_cell, one_based, warn
 from .._exceptions import ReadError
 from .._files import open_file
 from .._helpers import register_format
@@ -364,7 +364,7 @@ def write(filename, mesh, point_format="fixed-large", cell_format="fixed-small")
                     cell_ref = str(int(cell_refs_t[ic]))
                 cell_id += 1
                 cell_info = cell_info_fmt.format(keyword, cell_id, cell_ref)
-                cell1 = cell + 1
+                cell1 = one_based(cell)
                 cell1 = _convert_to_nastran_ordering(cell1, nastran_type)
                 line = cell_info + sjoin.join(
                     int_fmt.format(nid) for nid in cell1[:nipl1]
diff --git a/src/meshio/netgen/_netgen.py b/src/meshio/netgen/_netgen.py
index 1ed5055..9141525 100644
--- a/src/meshio/netgen/_netgen.py
+++ b/src/meshio/netgen/_netgen.py
@@ -6,7 +6,7 @@ I/O for Netgen mesh files
 import numpy as np
 
 from ..__about__ import __version__
-from .._common import warn
+from .._common import one_based, warn
 from .._exceptions import ReadError
 from .._files import open_file
 from .._helpers import register_format
@@ -192,7 +192,7 @@ def _write_cells(f, cell_block, index=None):
 
     pi = np.zeros((len(cell_block), col3), dtype=np.int32)
     pi[:, :col1] = np.repeat([pre_data], len(cell_block), axis=0)
-    pi[:, col1:col2] = cell_block.data[:, pmap] + 1
+    pi[:, col1:col2] = one_based(cell_block.data[:, pmap])
     pi[:, col2:] = np.repeat([post_data], len(cell_block), axis=0)
     if index is not None:
         pi[:, i_index] = index
diff --git a/src/meshio/obj/_obj.py b/src/meshio/obj/_obj.py
index f790576..69ae96e 100644
--- a/src/meshio/obj/_obj.py
+++ b/src/meshio/obj/_obj.py
@@ -8,6 +8,7 @@ import datetime
 import numpy as np
 
 from ..__about__ import __version__
+from .._common import one_based
 from .._exceptions import ReadError, WriteError
 from .._files import open_file
 from .._helpers import register_format
@@ -136,7 +137,7 @@ def write(filename, mesh):
         for cell_block in mesh.cells:
             fmt = "f " + " ".join(["{}"] * cell_block.data.shape[1]) + "\n"
             for c in cell_block.data:
-                f.write(fmt.format(*(c + 1)))
+                f.write(fmt.format(*one_based(c)))
 
 
 register_format("obj", [".obj"], read, {"obj": write})
diff --git a/src/meshio/tecplot/_tecplot.py b/src/meshio/tecplot/_tecplot.py
index 1e12abd..43d56cf 100644
--- a/src/meshio/tecplot/_tecplot.py
+++ b/src/meshio/tecplot/_tecplot.py
@@ -9,7 +9,7 @@ import re
 import numpy as np
 
 from ..__about__ import __version__ as version
-from .._common import num_nodes_per_cell, warn
+from .._common import num_nodes_per_cell, one_based, warn
 from .._exceptions import ReadError, WriteError
 from .._files import open_file
 from .._helpers import register_format
@@ -498,7 +498,7 @@ def write(filename, mesh):
 
         # CellBlock
         for cell in cells:
-            f.write(" ".join(str(c) for c in cell + 1) + "\n")
+            f.write(" ".join(str(c) for c in one_based(cell)) + "\n")
 
 
 def _write_table(f, data, ncol=20):
diff --git a/src/meshio/ugrid/_ugrid.py b/src/meshio/ugrid/_ugrid.py
index 66e8d95..ef92568 100644
--- a/src/meshio/ugrid/_ugrid.py
+++ b/src/meshio/ugrid/_ugrid.py
@@ -10,7 +10,7 @@ Node ordering described in
 
 import numpy as np
 
-from .._common import _pick_first_int_data, warn
+from .._common import _pick_first_int_data, one_based, warn
 from .._exceptions import ReadError
 from .._files import open_file
 from .._helpers import register_format
@@ -242,7 +242,7 @@ def _write_buffer(f, file_type, mesh):
             continue
         c = mesh.cells[ugrid_meshio_id[key]]
         # UGRID is one-based
-        _write_section(f, file_type, c.data + 1, itype)
+        _write_section(f, file_type, one_based(c.data), itype)
 
     # write boundary tags
     for key in ["triangle", "quad"]:
@@ -277,7 +277,7 @@ def _write_buffer(f, file_type, mesh):
             continue
         c = mesh.cells[ugrid_meshio_id[key]]
         # UGRID is one-based
-        out = c.data + 1
+        out = one_based(c.data)
         if c.type == "pyramid":
             out = out[:, [1, 0, 4, 2, 3]]
         _write_section(f, file_type, out, itype)
-- 
2.43.0

