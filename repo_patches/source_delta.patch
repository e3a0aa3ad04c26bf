From da2fd35d0bf3f485a16efab606647996b2cd652f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:12 +0000
Subject: [PATCH 01/90] fix: gmsh22 reader: split cell data by the number of
 cells per block

---
 src/meshio/gmsh/_gmsh22.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/gmsh/_gmsh22.py b/src/meshio/gmsh/_gmsh22.py
index 56fbdb6..3d72467 100644
--- a/src/meshio/gmsh/_gmsh22.py
+++ b/src/meshio/gmsh/_gmsh22.py
@@ -72,7 +72,7 @@ def read_buffer(f, is_ascii, data_size):
     if has_additional_tag_data:
         warn("The file contains tag data that couldn't be processed.")
 
-    cell_data = cell_data_from_raw(cells, cell_data_raw)
+    cell_data = cell_data_from_raw([c[1] for c in cells], cell_data_raw)
 
     # merge cell_tags into cell_data
     for tag_name, tag_dict in cell_tags.items():
-- 
2.43.0


From 777b655fb8061d1508cf8c473e427ee8885e71dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:12 +0000
Subject: [PATCH 02/90] fix: avsucd reader: cell data of meshes with several
 cell blocks

---
 src/meshio/avsucd/_avsucd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/avsucd/_avsucd.py b/src/meshio/avsucd/_avsucd.py
index 5fdbfe6..6b76103 100644
--- a/src/meshio/avsucd/_avsucd.py
+++ b/src/meshio/avsucd/_avsucd.py
@@ -69,7 +69,7 @@ def read_buffer(f):
     # Read cell data
     if num_cell_data:
         cdata = _read_data(f, num_cells, cell_ids)
-        sections = np.cumsum([len(c[1]) for c in cells[:-1]])
+        sections = np.cumsum([len(c) for c in cells[:-1]])
         for k, v in cdata.items():
             cell_data[k] = np.split(v, sections)
 
-- 
2.43.0


From f23a7297b7671546597da611691d1e9e622e65f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:12 +0000
Subject: [PATCH 03/90] fix: su2 writer: boundary cells

---
 src/meshio/su2/_su2.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/meshio/su2/_su2.py b/src/meshio/su2/_su2.py
index b925171..b59c504 100644
--- a/src/meshio/su2/_su2.py
+++ b/src/meshio/su2/_su2.py
@@ -338,7 +338,9 @@ def write(filename, mesh):
             f.write(f"MARKER_TAG= {tag}\n".encode())
             f.write(f"MARKER_ELEMS= {count}\n".encode())
 
-            for index, (cell_type, data) in enumerate(mesh.cells):
+            for index, cell_block in enumerate(mesh.cells):
+                cell_type = cell_block.type
+                data = cell_block.data
 
                 if cell_type not in types:
                     continue
-- 
2.43.0


From 9616a9db47c7f1be04809ac04ae05814ea821d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:12 +0000
Subject: [PATCH 04/90] fix: ugrid writer: boundary tags from cell data

---
 src/meshio/ugrid/_ugrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/ugrid/_ugrid.py b/src/meshio/ugrid/_ugrid.py
index 6fa57c0..8a6c560 100644
--- a/src/meshio/ugrid/_ugrid.py
+++ b/src/meshio/ugrid/_ugrid.py
@@ -253,7 +253,7 @@ def _write_buffer(f, file_type, mesh):
                 f'Picking {labels_key}, skipping {", ".join(other)}.'
             )
         labels = (
-            mesh.cell_data[labels_key]
+            mesh.cell_data[labels_key][ugrid_meshio_id[key]]
             if labels_key
             else np.ones(ugrid_counts[key], dtype=int)
         )
-- 
2.43.0


From 0eae038854e2d9fd3347399e139f20d266ecf0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:54 +0000
Subject: [PATCH 05/90] fix: xdmf reader: vertices and higher-order cells in
 mixed topologies

---
 src/meshio/xdmf/common.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/meshio/xdmf/common.py b/src/meshio/xdmf/common.py
index fb7fcf3..1d5de97 100644
--- a/src/meshio/xdmf/common.py
+++ b/src/meshio/xdmf/common.py
@@ -1,5 +1,6 @@
 import numpy as np
 
+from .._common import num_nodes_per_cell
 from .._exceptions import ReadError
 from .._mesh import CellBlock
 
@@ -116,15 +117,8 @@ def translate_mixed_cells(data):
     # https://xdmf.org/index.php/XDMF_Model_and_Format#Arbitrary
     # https://gitlab.kitware.com/xdmf/xdmf/blob/master/XdmfTopologyType.hpp#L394
     xdmf_idx_to_num_nodes = {
-        1: 1,  # vertex
-        2: 2,  # line
-        4: 3,  # triangle
-        5: 4,  # quad
-        6: 4,  # tet
-        7: 5,  # pyramid
-        8: 6,  # wedge
-        9: 8,  # hex
-        11: 6,  # triangle6
+        idx: num_nodes_per_cell[cell_type]
+        for idx, cell_type in xdmf_idx_to_meshio_type.items()
     }
 
     # collect types and offsets
@@ -139,6 +133,10 @@ def translate_mixed_cells(data):
             if data[r + 1] != 2:  # polyline
                 raise ReadError("XDMF reader: Only supports 2-point lines for now")
             r += 1
+        elif xdmf_type == 1:  # vertex
+            if data[r + 1] != 1:  # polyvertex
+                raise ReadError("XDMF reader: Only supports 1-point vertices for now")
+            r += 1
         r += 1
         r += xdmf_idx_to_num_nodes[xdmf_type]
 
@@ -150,7 +148,7 @@ def translate_mixed_cells(data):
     for start, end in zip(b[:-1], b[1:]):
         meshio_type = xdmf_idx_to_meshio_type[types[start]]
         n = xdmf_idx_to_num_nodes[types[start]]
-        point_offsets = offsets[start:end] + (2 if types[start] == 2 else 1)
+        point_offsets = offsets[start:end] + (2 if types[start] in {1, 2} else 1)
         indices = np.array([np.arange(n) + o for o in point_offsets])
         cells.append(CellBlock(meshio_type, data[indices]))
 
-- 
2.43.0


From 1007678f1c10230797197a8d8eda199ad5ae8bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:40 +0000
Subject: [PATCH 06/90] fix: xdmf: binary data files are found relative to the
 XDMF file

---
 src/meshio/xdmf/main.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/meshio/xdmf/main.py b/src/meshio/xdmf/main.py
index 4d8c39d..a7ae1eb 100644
--- a/src/meshio/xdmf/main.py
+++ b/src/meshio/xdmf/main.py
@@ -92,8 +92,11 @@ class XdmfReader:
             return data.reshape(dims)
 
         elif fmt == "Binary":
+            # The file path is given with respect to the XDMF (XML) file.
+            dirname = pathlib.Path(self.filename).resolve().parent
             return np.fromfile(
-                data_item.text.strip(), dtype=xdmf_to_numpy_type[(data_type, precision)]
+                dirname / data_item.text.strip(),
+                dtype=xdmf_to_numpy_type[(data_type, precision)],
             ).reshape(dims)
 
         if fmt != "HDF":
@@ -385,7 +388,8 @@ class XdmfWriter:
             # write binary data to file
             with open(bin_filename, "wb") as f:
                 data.tofile(f)
-            return bin_filename
+            # relative to the XDMF (XML) file, as for HDF
+            return os.path.basename(bin_filename)
 
         if self.data_format != "HDF":
             raise WriteError(f'Unknown data format "{self.data_format}"')
-- 
2.43.0


From 132f3a87f3284277e84cd8f4813d4584d167dd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:40 +0000
Subject: [PATCH 07/90] fix: xdmf time series: data files next to the XDMF
 file, not in the working directory

---
 src/meshio/xdmf/time_series.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/meshio/xdmf/time_series.py b/src/meshio/xdmf/time_series.py
index a3f8503..dc4b5e4 100644
--- a/src/meshio/xdmf/time_series.py
+++ b/src/meshio/xdmf/time_series.py
@@ -199,8 +199,10 @@ class TimeSeriesReader:
                 sep=" ",
             ).reshape(dims)
         elif data_format == "Binary":
+            # The file path is given with respect to the XDMF (XML) file.
             return np.fromfile(
-                data_item.text.strip(), dtype=xdmf_to_numpy_type[(data_type, precision)]
+                self.filename.resolve().parent / data_item.text.strip(),
+                dtype=xdmf_to_numpy_type[(data_type, precision)],
             ).reshape(dims)
 
         if data_format != "HDF":
@@ -262,7 +264,7 @@ class TimeSeriesWriter:
         if self.data_format == "HDF":
             import h5py
 
-            self.h5_filename = self.filename.stem + ".h5"
+            self.h5_filename = self.filename.with_suffix(".h5")
             self.h5_file = h5py.File(self.h5_filename, "w")
         return self
 
@@ -327,7 +329,7 @@ class TimeSeriesWriter:
             bin_filename = f"{self.filename.stem}{self.data_counter}.bin"
             self.data_counter += 1
             # write binary data to file
-            with open(bin_filename, "wb") as f:
+            with open(self.filename.parent / bin_filename, "wb") as f:
                 data.tofile(f)
             return bin_filename
 
-- 
2.43.0


From b82b12792db2ae203ddb73891c88714ffd724c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:40 +0000
Subject: [PATCH 08/90] fix: xdmf time series: mixed meshes with lines and
 vertices

---
 src/meshio/xdmf/time_series.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/meshio/xdmf/time_series.py b/src/meshio/xdmf/time_series.py
index dc4b5e4..667ee9e 100644
--- a/src/meshio/xdmf/time_series.py
+++ b/src/meshio/xdmf/time_series.py
@@ -408,22 +408,19 @@ class TimeSeriesWriter:
             )
             total_num_cell_items = sum(np.prod(c.data.shape) for c in cell_blocks)
             dim = total_num_cell_items + total_num_cells
-            # Lines translate to Polylines, and one needs to specify the exact
-            # number of nodes. Hence, prepend 2.
+            # Vertices and lines translate to Polyvertices and Polylines, and one needs
+            # to specify the exact number of nodes. Hence, prepend 1 or 2.
+            data = []
             for c in cell_blocks:
-                if c.type == "line":
-                    c.data[:] = np.insert(c.data, 0, 2, axis=1)
-                    dim += len(c.data)
+                d = c.data
+                if c.type in {"vertex", "line"}:
+                    d = np.insert(d, 0, d.shape[1], axis=1)
+                    dim += len(d)
+                # prepend column with xdmf type index
+                d = np.insert(d, 0, meshio_type_to_xdmf_index[c.type], axis=1)
+                data.append(d.flatten())
             dim = str(dim)
-            cd = np.concatenate(
-                [
-                    # prepend column with xdmf type index
-                    np.insert(
-                        c.data, 0, meshio_type_to_xdmf_index[c.type], axis=1
-                    ).flatten()
-                    for c in cell_blocks
-                ]
-            )
+            cd = np.concatenate(data)
             dt, prec = numpy_to_xdmf_dtype[cd.dtype.name]
             data_item = ET.SubElement(
                 topo,
-- 
2.43.0


From 2dafc0696e81190f6c49f6ee84faf0978ca9e450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:40 +0000
Subject: [PATCH 09/90] fix: xdmf time series: a failed step is not added, the
 caller's cell data is not changed

---
 src/meshio/xdmf/time_series.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/meshio/xdmf/time_series.py b/src/meshio/xdmf/time_series.py
index 667ee9e..851e84b 100644
--- a/src/meshio/xdmf/time_series.py
+++ b/src/meshio/xdmf/time_series.py
@@ -302,9 +302,9 @@ class TimeSeriesWriter:
         #     <DataItem Dimensions="8457 1" Format="HDF">maxwell.h5:/VisualisationVector/1</DataItem>
         #   </Attribute>
         # </Grid>
-        grid = ET.SubElement(self.collection, "Grid")
         if not self.has_mesh:
             raise WriteError()
+        grid = ET.Element("Grid")
         ptr = f'xpointer(//Grid[@Name="{self.mesh_name}"]/*[self::Topology or self::Geometry])'
         ET.SubElement(grid, "{http://www.w3.org/2003/XInclude}include", xpointer=ptr)
         ET.SubElement(grid, "Time", Value=str(t))
@@ -313,12 +313,16 @@ class TimeSeriesWriter:
             self.point_data(point_data, grid)
 
         # permit old dict structure, convert it to list of tuples
-        for name, entry in cell_data.items():
-            if isinstance(entry, dict):
-                cell_data[name] = np.array(list(entry.values()))
+        cell_data = {
+            name: np.array(list(entry.values())) if isinstance(entry, dict) else entry
+            for name, entry in cell_data.items()
+        }
         if cell_data:
             self.cell_data(cell_data, grid)
 
+        # only a complete step becomes part of the series
+        self.collection.append(grid)
+
     def numpy_to_xml_string(self, data):
         if self.data_format == "XML":
             s = BytesIO()
-- 
2.43.0


From 472f1062f6c4fa8821bb2f78dea69d68a957d197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:50 +0000
Subject: [PATCH 10/90] fix: xdmf time series: a mesh that could not be written
 is not added

---
 src/meshio/xdmf/time_series.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/meshio/xdmf/time_series.py b/src/meshio/xdmf/time_series.py
index 851e84b..9a0610c 100644
--- a/src/meshio/xdmf/time_series.py
+++ b/src/meshio/xdmf/time_series.py
@@ -286,11 +286,10 @@ class TimeSeriesWriter:
         #     <DataItem Dimensions="8457 2" Format="HDF">maxwell.h5:/Mesh/0/mesh/geometry</DataItem>
         #   </Geometry>
         # </Grid>
-        grid = ET.SubElement(
-            self.domain, "Grid", Name=self.mesh_name, GridType="Uniform"
-        )
+        grid = ET.Element("Grid", Name=self.mesh_name, GridType="Uniform")
         self.points(grid, np.asarray(points))
         self.cells(cells, grid)
+        self.domain.append(grid)
         self.has_mesh = True
 
     def write_data(self, t, point_data=None, cell_data=None):
-- 
2.43.0


From cffee2fd9774096b16cae3190866f90d06a233bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:50 +0000
Subject: [PATCH 11/90] fix: wkt reader: numbers with exponents, no
 catastrophic backtracking

---
 src/meshio/wkt/_wkt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/wkt/_wkt.py b/src/meshio/wkt/_wkt.py
index 588f504..c8a9286 100644
--- a/src/meshio/wkt/_wkt.py
+++ b/src/meshio/wkt/_wkt.py
@@ -10,7 +10,7 @@ from .._files import open_file
 from .._helpers import register_format
 from .._mesh import CellBlock, Mesh
 
-float_pattern = r"[+-]?(?:\d+\.?\d*|\d*\.?\d+)"
+float_pattern = r"[+-]?(?:\d+(?:\.\d*)?|\.\d+)(?:[eE][+-]?\d+)?"
 float_re = re.compile(float_pattern)
 
 point_pattern = r"{0}\s+{0}\s+{0}(?:\s+{0})?".format(float_pattern)
-- 
2.43.0


From 8e6221016eeed9ddc233f4ca2130b5f7279c1340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:40 +0000
Subject: [PATCH 12/90] fix: ansys writer: arrays are written through the file
 object, so that storage errors are raised

ndarray.tofile() ignores errors on its final flush: on a full disk the
write returned normally and left a truncated file.
---
 src/meshio/ansys/_ansys.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/meshio/ansys/_ansys.py b/src/meshio/ansys/_ansys.py
index 364616a..5cd3076 100644
--- a/src/meshio/ansys/_ansys.py
+++ b/src/meshio/ansys/_ansys.py
@@ -413,7 +413,7 @@ def write(filename, mesh, binary=True):
             f"({key} (1 {first_node_index:x} {num_points:x} 1 {dim:x})(\n".encode()
         )
         if binary:
-            mesh.points.tofile(fh)
+            fh.write(mesh.points.tobytes())
             fh.write(b"\n)")
             fh.write(b"End of Binary Section 3010)\n")
         else:
@@ -453,7 +453,7 @@ def write(filename, mesh, binary=True):
                 f"({key} (1 {first_index:x} {last_index:x} 1 {ansys_cell_type})(\n".encode()
             )
             if binary:
-                (values + first_node_index).tofile(fh)
+                fh.write((values + first_node_index).tobytes())
                 fh.write(b"\n)")
                 fh.write((f"End of Binary Section {key})\n").encode())
             else:
-- 
2.43.0


From 0cc21253dffe7930b82336486fd84c9b4b7f5a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:40 +0000
Subject: [PATCH 13/90] fix: gmsh writer: arrays are written through the file
 object, so that storage errors are raised

ndarray.tofile() ignores errors on its final flush: on a full disk the
write returned normally and left a truncated file.
---
 src/meshio/gmsh/_gmsh22.py |  8 +++---
 src/meshio/gmsh/_gmsh40.py | 23 ++++++++--------
 src/meshio/gmsh/_gmsh41.py | 54 ++++++++++++++++++++------------------
 src/meshio/gmsh/common.py  |  2 +-
 4 files changed, 46 insertions(+), 41 deletions(-)

diff --git a/src/meshio/gmsh/_gmsh22.py b/src/meshio/gmsh/_gmsh22.py
index 3d72467..6e4ca1a 100644
--- a/src/meshio/gmsh/_gmsh22.py
+++ b/src/meshio/gmsh/_gmsh22.py
@@ -296,7 +296,7 @@ def write(filename, mesh, float_fmt=".16e", binary=True):
         size_of_double = 8
         fh.write(f"$MeshFormat\n2.2 {mode_idx} {size_of_double}\n".encode())
         if binary:
-            np.array([1], dtype=c_int).tofile(fh)
+            fh.write(np.array([1], dtype=c_int).tobytes())
             fh.write(b"\n")
         fh.write(b"$EndMeshFormat\n")
 
@@ -327,7 +327,7 @@ def _write_nodes(fh, points, float_fmt, binary):
         tmp = np.empty(len(points), dtype=dtype)
         tmp["index"] = 1 + np.arange(len(points))
         tmp["x"] = points
-        tmp.tofile(fh)
+        fh.write(tmp.tobytes())
         fh.write(b"\n")
     else:
         fmt = "{} " + " ".join(3 * ["{:" + float_fmt + "}"]) + "\n"
@@ -361,14 +361,14 @@ def _write_elements(fh, cells: list[CellBlock], tag_data, binary: bool):
         if binary:
             # header
             header = [_meshio_to_gmsh_type[cell_type], node_idcs.shape[0], fcd.shape[1]]
-            np.array(header, dtype=c_int).tofile(fh)
+            fh.write(np.array(header, dtype=c_int).tobytes())
             # actual data
             a = np.arange(len(node_idcs), dtype=c_int)[:, np.newaxis]
             a += 1 + consecutive_index
             array = np.hstack([a, fcd, node_idcs + 1])
             if array.dtype != c_int:
                 array = array.astype(c_int)
-            array.tofile(fh)
+            fh.write(array.tobytes())
         else:
             form = (
                 "{} "
diff --git a/src/meshio/gmsh/_gmsh40.py b/src/meshio/gmsh/_gmsh40.py
index 3d4270e..0c8903f 100644
--- a/src/meshio/gmsh/_gmsh40.py
+++ b/src/meshio/gmsh/_gmsh40.py
@@ -245,7 +245,7 @@ def write(filename, mesh: Mesh, float_fmt: str = ".16e", binary: bool = True) ->
         size_of_double = 8
         fh.write(f"$MeshFormat\n4.0 {mode_idx} {size_of_double}\n".encode())
         if binary:
-            np.array([1], dtype=c_int).tofile(fh)
+            fh.write(np.array([1], dtype=c_int).tobytes())
             fh.write(b"\n")
         fh.write(b"$EndMeshFormat\n")
 
@@ -278,14 +278,14 @@ def _write_nodes(fh, points: np.ndarray, float_fmt: str, binary: bool) -> None:
         # numEntityBlocks(unsigned long) numNodes(unsigned long)
         # tagEntity(int) dimEntity(int) typeNode(int) numNodes(unsigned long)
         # tag(int) x(double) y(double) z(double)
-        np.array([1, points.shape[0]], dtype=c_ulong).tofile(fh)
-        np.array([1, dim_entity, type_node], dtype=c_int).tofile(fh)
-        np.array([points.shape[0]], dtype=c_ulong).tofile(fh)
+        fh.write(np.array([1, points.shape[0]], dtype=c_ulong).tobytes())
+        fh.write(np.array([1, dim_entity, type_node], dtype=c_int).tobytes())
+        fh.write(np.array([points.shape[0]], dtype=c_ulong).tobytes())
         dtype = [("index", c_int), ("x", c_double, (3,))]
         tmp = np.empty(len(points), dtype=dtype)
         tmp["index"] = 1 + np.arange(len(points))
         tmp["x"] = points
-        tmp.tofile(fh)
+        fh.write(tmp.tobytes())
         fh.write(b"\n")
     else:
         # write all points as one big block
@@ -310,18 +310,19 @@ def _write_elements(fh, cell_blocks: list[CellBlock], binary: bool):
 
     if binary:
         total_num_cells = sum(len(cell_block) for cell_block in cell_blocks)
-        np.array([len(cell_blocks), total_num_cells], dtype=c_ulong).tofile(fh)
+        fh.write(np.array([len(cell_blocks), total_num_cells], dtype=c_ulong).tobytes())
 
         consecutive_index = 0
         for cell_block in cell_blocks:
             node_idcs = _meshio_to_gmsh_order(cell_block.type, cell_block.data)
 
             # tagEntity(int) dimEntity(int) typeEle(int) numElements(unsigned long)
-            np.array(
+            d = np.array(
                 [1, cell_block.dim, _meshio_to_gmsh_type[cell_block.type]],
                 dtype=c_int,
-            ).tofile(fh)
-            np.array([node_idcs.shape[0]], dtype=c_ulong).tofile(fh)
+            )
+            fh.write(d.tobytes())
+            fh.write(np.array([node_idcs.shape[0]], dtype=c_ulong).tobytes())
 
             if node_idcs.dtype != c_int:
                 # Binary Gmsh needs c_int (typically np.int32) integers Converting.
@@ -338,7 +339,7 @@ def _write_elements(fh, cell_blocks: list[CellBlock], binary: bool):
                     node_idcs + 1,
                 ]
             )
-            data.tofile(fh)
+            fh.write(data.tobytes())
             consecutive_index += len(node_idcs)
 
         fh.write(b"\n")
@@ -376,7 +377,7 @@ def _write_periodic(fh, periodic, float_fmt, binary):
     def tofile(fh, value, dtype, **kwargs):
         ary = np.array(value, dtype=dtype)
         if binary:
-            ary.tofile(fh)
+            fh.write(ary.tobytes())
         else:
             ary = np.atleast_2d(ary)
             fmt = float_fmt if dtype == c_double else "d"
diff --git a/src/meshio/gmsh/_gmsh41.py b/src/meshio/gmsh/_gmsh41.py
index 3e305a1..914cff9 100644
--- a/src/meshio/gmsh/_gmsh41.py
+++ b/src/meshio/gmsh/_gmsh41.py
@@ -319,7 +319,7 @@ def write(filename, mesh, float_fmt=".16e", binary=True):
         fh.write(b"$MeshFormat\n")
         fh.write(f"4.1 {file_type} {data_size}\n".encode())
         if binary:
-            np.array([1], dtype=c_int).tofile(fh)
+            fh.write(np.array([1], dtype=c_int).tobytes())
             fh.write(b"\n")
         fh.write(b"$EndMeshFormat\n")
 
@@ -407,7 +407,7 @@ def _write_entities(fh, cells, tag_data, cell_sets, point_data, binary):
         raise ValueError("Encountered entity with dimension > 3")
 
     if binary:
-        num_occ.astype(c_size_t).tofile(fh)
+        fh.write(num_occ.astype(c_size_t).tobytes())
     else:
         fh.write(f"{num_occ[0]} {num_occ[1]} {num_occ[2]} {num_occ[3]}\n".encode())
 
@@ -443,7 +443,7 @@ def _write_entities(fh, cells, tag_data, cell_sets, point_data, binary):
 
         # Entity tag
         if binary:
-            np.array([tag], dtype=c_int).tofile(fh)
+            fh.write(np.array([tag], dtype=c_int).tobytes())
         else:
             fh.write(f"{tag} ".encode())
 
@@ -455,13 +455,13 @@ def _write_entities(fh, cells, tag_data, cell_sets, point_data, binary):
         if dim == 0:
             # Bounding box is a point
             if binary:
-                np.zeros(3, dtype=c_double).tofile(fh)
+                fh.write(np.zeros(3, dtype=c_double).tobytes())
             else:
                 fh.write(b"0 0 0 ")
         else:
             # Bounding box has six coordinates
             if binary:
-                np.zeros(6, dtype=c_double).tofile(fh)
+                fh.write(np.zeros(6, dtype=c_double).tobytes())
             else:
                 fh.write(b"0 0 0 0 0 0 ")
 
@@ -472,14 +472,14 @@ def _write_entities(fh, cells, tag_data, cell_sets, point_data, binary):
             # ASSUMPTION: There is a single physical tag for this
             physical_tag = tag_data["gmsh:physical"][matching_cell_block[0]][0]
             if binary:
-                np.array([1], dtype=c_size_t).tofile(fh)
-                np.array([physical_tag], dtype=c_int).tofile(fh)
+                fh.write(np.array([1], dtype=c_size_t).tobytes())
+                fh.write(np.array([physical_tag], dtype=c_int).tobytes())
             else:
                 fh.write(f"1 {physical_tag} ".encode())
         else:
             # The number of physical tags is zero
             if binary:
-                np.array([0], dtype=c_size_t).tofile(fh)
+                fh.write(np.array([0], dtype=c_size_t).tobytes())
             else:
                 fh.write(b"0 ")
 
@@ -492,8 +492,8 @@ def _write_entities(fh, cells, tag_data, cell_sets, point_data, binary):
                 num_bounds = len(bounds)
                 if num_bounds > 0:
                     if binary:
-                        np.array(num_bounds, dtype=c_size_t).tofile(fh)
-                        np.array(bounds, dtype=c_int).tofile(fh)
+                        fh.write(np.array(num_bounds, dtype=c_size_t).tobytes())
+                        fh.write(np.array(bounds, dtype=c_int).tobytes())
                     else:
                         fh.write(f"{num_bounds} ".encode())
                         for bi in bounds:
@@ -502,14 +502,14 @@ def _write_entities(fh, cells, tag_data, cell_sets, point_data, binary):
                 else:
                     # Register that there are no bounding elements
                     if binary:
-                        np.array([0], dtype=c_size_t).tofile(fh)
+                        fh.write(np.array([0], dtype=c_size_t).tobytes())
                     else:
                         fh.write(b"0\n")
 
             else:
                 # Register that there are no bounding elements
                 if binary:
-                    np.array([0], dtype=c_size_t).tofile(fh)
+                    fh.write(np.array([0], dtype=c_size_t).tobytes())
                 else:
                     fh.write(b"0\n")
         else:
@@ -599,7 +599,7 @@ def _write_nodes(fh, points, cells, point_data, float_fmt, binary):
         if points.dtype != c_double:
             warn(f"Binary Gmsh needs c_double points (got {points.dtype}). Converting.")
             points = points.astype(c_double)
-        np.array([num_blocks, n, min_tag, max_tag], dtype=c_size_t).tofile(fh)
+        fh.write(np.array([num_blocks, n, min_tag, max_tag], dtype=c_size_t).tobytes())
     else:
         fh.write(f"{num_blocks} {n} {min_tag} {max_tag}\n".encode())
 
@@ -610,13 +610,13 @@ def _write_nodes(fh, points, cells, point_data, float_fmt, binary):
         num_points_this = node_tags.size
 
         if binary:
-            np.array([dim, tag, is_parametric], dtype=c_int).tofile(fh)
-            np.array([num_points_this], dtype=c_size_t).tofile(fh)
-            (node_tags + 1).astype(c_size_t).tofile(fh)
-            points[node_tags].tofile(fh)
+            fh.write(np.array([dim, tag, is_parametric], dtype=c_int).tobytes())
+            fh.write(np.array([num_points_this], dtype=c_size_t).tobytes())
+            fh.write((node_tags + 1).astype(c_size_t).tobytes())
+            fh.write(points[node_tags].tobytes())
         else:
             fh.write(f"{dim} {tag} {is_parametric} {num_points_this}\n".encode())
-            (node_tags + 1).astype(c_size_t).tofile(fh, "\n", "%d")
+            fh.write("\n".join(map(str, (node_tags + 1).tolist())).encode())
             fh.write(b"\n")
             np.savetxt(fh, points[node_tags], delimiter=" ", fmt="%" + float_fmt)
 
@@ -645,10 +645,11 @@ def _write_elements(fh, cells, tag_data, binary: bool) -> None:
     min_element_tag = 1
     max_element_tag = total_num_cells
     if binary:
-        np.array(
+        d = np.array(
             [num_blocks, total_num_cells, min_element_tag, max_element_tag],
             dtype=c_size_t,
-        ).tofile(fh)
+        )
+        fh.write(d.tobytes())
 
         tag0 = 1
         for ci, cell_block in enumerate(cells):
@@ -667,9 +668,11 @@ def _write_elements(fh, cells, tag_data, binary: bool) -> None:
                 entity_tag = 0
 
             cell_type = _meshio_to_gmsh_type[cell_block.type]
-            np.array([cell_block.dim, entity_tag, cell_type], dtype=c_int).tofile(fh)
+            fh.write(
+                np.array([cell_block.dim, entity_tag, cell_type], dtype=c_int).tobytes()
+            )
             n = node_idcs.shape[0]
-            np.array([n], dtype=c_size_t).tofile(fh)
+            fh.write(np.array([n], dtype=c_size_t).tobytes())
 
             if node_idcs.dtype != c_size_t:
                 warn(
@@ -678,13 +681,14 @@ def _write_elements(fh, cells, tag_data, binary: bool) -> None:
                 )
                 node_idcs = node_idcs.astype(c_size_t)
 
-            np.column_stack(
+            d = np.column_stack(
                 [
                     np.arange(tag0, tag0 + n, dtype=c_size_t),
                     # increment indices by one to conform with gmsh standard
                     node_idcs + 1,
                 ]
-            ).tofile(fh)
+            )
+            fh.write(d.tobytes())
             tag0 += n
 
         fh.write(b"\n")
@@ -742,7 +746,7 @@ def _write_periodic(fh, periodic, float_fmt: str, binary: bool) -> None:
     def tofile(fh, value, dtype, **kwargs):
         ary = np.array(value, dtype=dtype)
         if binary:
-            ary.tofile(fh)
+            fh.write(ary.tobytes())
         else:
             ary = np.atleast_2d(ary)
             fmt = float_fmt if dtype == c_double else "d"
diff --git a/src/meshio/gmsh/common.py b/src/meshio/gmsh/common.py
index 717e82e..1e13294 100644
--- a/src/meshio/gmsh/common.py
+++ b/src/meshio/gmsh/common.py
@@ -270,7 +270,7 @@ def _write_data(fh, tag, name, data, binary):
         tmp = np.empty(len(data), dtype=dtype)
         tmp["index"] = 1 + np.arange(len(data))
         tmp["data"] = data
-        tmp.tofile(fh)
+        fh.write(tmp.tobytes())
         fh.write(b"\n")
     else:
         fmt = " ".join(["{}"] + ["{!r}"] * num_components) + "\n"
-- 
2.43.0


From f4e797ac143f40e1bf023226f4291aa08d23bdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:40 +0000
Subject: [PATCH 14/90] fix: medit writer: arrays are written through the file
 object, so that storage errors are raised

ndarray.tofile() ignores errors on its final flush: on a full disk the
write returned normally and left a truncated file.
---
 src/meshio/medit/_medit.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/meshio/medit/_medit.py b/src/meshio/medit/_medit.py
index 272bd16..e9c8fa3 100644
--- a/src/meshio/medit/_medit.py
+++ b/src/meshio/medit/_medit.py
@@ -419,7 +419,7 @@ def write_binary_file(f, mesh):
         tmp_array["f2"] = field
         tmp_array["f3"] = pos
         tmp_array["f4"] = dim
-        tmp_array.tofile(fh)
+        fh.write(tmp_array.tobytes())
 
         # write points
         field = 4  # GmfVertices
@@ -433,7 +433,7 @@ def write_binary_file(f, mesh):
         tmp_array["f0"] = field
         tmp_array["f1"] = pos
         tmp_array["f2"] = num_verts
-        tmp_array.tofile(fh)
+        fh.write(tmp_array.tobytes())
 
         field_template = field_code[2]
         dtype = np.dtype(_produce_dtype(field_template, dim, itype, ftype))
@@ -454,7 +454,7 @@ def write_binary_file(f, mesh):
         tmp_array = np.empty(num_verts, dtype=dtype)
         tmp_array["f0"] = mesh.points
         tmp_array["f1"] = labels
-        tmp_array.tofile(fh)
+        fh.write(tmp_array.tobytes())
 
         labels_key, other = _pick_first_int_data(mesh.cell_data)
         if labels_key and other:
@@ -494,7 +494,7 @@ def write_binary_file(f, mesh):
             tmp_array["f0"] = medit_key
             tmp_array["f1"] = pos
             tmp_array["f2"] = num_cells
-            tmp_array.tofile(fh)
+            fh.write(tmp_array.tobytes())
 
             # pick out cell data
             labels = (
@@ -512,7 +512,7 @@ def write_binary_file(f, mesh):
                 i += 1
 
             tmp_array[dtype.names[-1]] = labels
-            tmp_array.tofile(fh)
+            fh.write(tmp_array.tobytes())
 
         pos = 0
         field = 54  # GmfEnd
@@ -520,7 +520,7 @@ def write_binary_file(f, mesh):
         tmp_array = np.empty(1, dtype=header_type)
         tmp_array["f0"] = field
         tmp_array["f1"] = pos
-        tmp_array.tofile(fh)
+        fh.write(tmp_array.tobytes())
 
 
 register_format("medit", [".mesh", ".meshb"], read, {"medit": write})
-- 
2.43.0


From 451e57052f5a3e4f9e38639e99c8d7bda606c489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:40 +0000
Subject: [PATCH 15/90] fix: stl writer: arrays are written through the file
 object, so that storage errors are raised

ndarray.tofile() ignores errors on its final flush: on a full disk the
write returned normally and left a truncated file.
---
 src/meshio/stl/_stl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/stl/_stl.py b/src/meshio/stl/_stl.py
index 8be0eed..6bba446 100644
--- a/src/meshio/stl/_stl.py
+++ b/src/meshio/stl/_stl.py
@@ -252,7 +252,7 @@ def _write_binary(filename, pts, normals):
         a["normal"] = normals
         a["points"] = pts
         a["attr"] = 0
-        a.tofile(fh)
+        fh.write(a.tobytes())
 
 
 register_format("stl", [".stl"], read, {"stl": write})
-- 
2.43.0


From 9973987ab92ae92fa760a794ca14516900024d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:41 +0000
Subject: [PATCH 16/90] fix: ugrid writer: arrays are written through the file
 object, so that storage errors are raised

ndarray.tofile() ignores errors on its final flush: on a full disk the
write returned normally and left a truncated file.
---
 src/meshio/ugrid/_ugrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/meshio/ugrid/_ugrid.py b/src/meshio/ugrid/_ugrid.py
index 8a6c560..f28f211 100644
--- a/src/meshio/ugrid/_ugrid.py
+++ b/src/meshio/ugrid/_ugrid.py
@@ -148,13 +148,13 @@ def _write_section(f, file_type, array, dtype):
         fmt = " ".join(["%r"] * ncols)
         np.savetxt(f, array, fmt=fmt)
     else:
-        array.astype(dtype).tofile(f)
+        f.write(array.astype(dtype).tobytes())
 
 
 def write(filename, mesh):
     file_type = determine_file_type(filename)
 
-    with open_file(filename, "w") as f:
+    with open_file(filename, "w" if file_type["type"] == "ascii" else "wb") as f:
         _write_buffer(f, file_type, mesh)
 
 
-- 
2.43.0


From 9ad0abd2c720074b88d0a2027eec01dc8dfa707a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:41 +0000
Subject: [PATCH 17/90] fix: vtk writer: arrays are written through the file
 object, so that storage errors are raised

ndarray.tofile() ignores errors on its final flush: on a full disk the
write returned normally and left a truncated file.
---
 src/meshio/vtk/_vtk_42.py | 22 ++++++++++++----------
 src/meshio/vtk/_vtk_51.py | 20 ++++++++++----------
 2 files changed, 22 insertions(+), 20 deletions(-)

diff --git a/src/meshio/vtk/_vtk_42.py b/src/meshio/vtk/_vtk_42.py
index f3cb469..6acc658 100644
--- a/src/meshio/vtk/_vtk_42.py
+++ b/src/meshio/vtk/_vtk_42.py
@@ -670,10 +670,10 @@ def _write_points(f, points, binary):
         #     points.dtype.byteorder == "=" and sys.byteorder == "little"
         # ):
         #     logging.warn("Converting to new byte order")
-        points.astype(points.dtype.newbyteorder(">")).tofile(f, sep="")
+        f.write(points.astype(points.dtype.newbyteorder(">")).tobytes())
     else:
         # ascii
-        points.tofile(f, sep=" ")
+        f.write(" ".join(map(str, points.ravel().tolist())).encode())
     f.write(b"\n")
 
 
@@ -695,9 +695,10 @@ def _write_cells(f, cells, binary):
             dtype = np.dtype(">i4")
             # One must force endianness here:
             # <https://github.com/numpy/numpy/issues/15088>
-            np.column_stack(
+            d = np.column_stack(
                 [np.full(d.shape[0], n, dtype=dtype), d.astype(dtype)],
-            ).astype(dtype).tofile(f, sep="")
+            ).astype(dtype)
+            f.write(d.tobytes())
         f.write(b"\n")
     else:
         # ascii
@@ -710,9 +711,10 @@ def _write_cells(f, cells, binary):
                 d = d[:, new_order]
 
             # prepend a column with the value n
-            np.column_stack(
+            d = np.column_stack(
                 [np.full(c.data.shape[0], n, dtype=c.data.dtype), d]
-            ).tofile(f, sep="\n")
+            )
+            f.write("\n".join(map(str, d.ravel().tolist())).encode())
             f.write(b"\n")
 
     # write cell types
@@ -720,13 +722,13 @@ def _write_cells(f, cells, binary):
     if binary:
         for c in cells:
             vtk_type = meshio_to_vtk_type[c.type]
-            np.full(len(c.data), vtk_type, dtype=np.dtype(">i4")).tofile(f, sep="")
+            f.write(np.full(len(c.data), vtk_type, dtype=np.dtype(">i4")).tobytes())
         f.write(b"\n")
     else:
         # ascii
         for c in cells:
             vtk_type = meshio_to_vtk_type[c.type]
-            np.full(len(c.data), vtk_type).tofile(f, sep="\n")
+            f.write("\n".join(len(c.data) * [str(vtk_type)]).encode())
             f.write(b"\n")
 
 
@@ -756,9 +758,9 @@ def _write_field_data(f, data, binary):
             ).encode()
         )
         if binary:
-            values.astype(values.dtype.newbyteorder(">")).tofile(f, sep="")
+            f.write(values.astype(values.dtype.newbyteorder(">")).tobytes())
         else:
             # ascii
-            values.tofile(f, sep=" ")
+            f.write(" ".join(map(str, values.ravel().tolist())).encode())
             # np.savetxt(f, points)
         f.write(b"\n")
diff --git a/src/meshio/vtk/_vtk_51.py b/src/meshio/vtk/_vtk_51.py
index 2eb1db6..31188e1 100644
--- a/src/meshio/vtk/_vtk_51.py
+++ b/src/meshio/vtk/_vtk_51.py
@@ -563,10 +563,10 @@ def _write_points(f, points, binary):
         #     points.dtype.byteorder == "=" and sys.byteorder == "little"
         # ):
         #     logging.warn("Converting to new byte order")
-        points.astype(points.dtype.newbyteorder(">")).tofile(f, sep="")
+        f.write(points.astype(points.dtype.newbyteorder(">")).tobytes())
     else:
         # ascii
-        points.tofile(f, sep=" ")
+        f.write(" ".join(map(str, points.ravel().tolist())).encode())
     f.write(b"\n")
 
 
@@ -587,7 +587,7 @@ def _write_cells(f, cells, binary):
     if binary:
         f.write(b"OFFSETS vtktypeint64\n")
         # force big-endian and int64
-        offsets.astype(">i8").tofile(f, sep="")
+        f.write(offsets.astype(">i8").tobytes())
         f.write(b"\n")
 
         f.write(b"CONNECTIVITY vtktypeint64\n")
@@ -597,12 +597,12 @@ def _write_cells(f, cells, binary):
             if cell_idx is not None:
                 d = d[:, cell_idx]
             # force big-endian and int64
-            d.astype(">i8").tofile(f, sep="")
+            f.write(d.astype(">i8").tobytes())
         f.write(b"\n")
     else:
         # ascii
         f.write(b"OFFSETS vtktypeint64\n")
-        offsets.tofile(f, sep="\n")
+        f.write("\n".join(map(str, offsets.ravel().tolist())).encode())
         f.write(b"\n")
 
         f.write(b"CONNECTIVITY vtktypeint64\n")
@@ -611,7 +611,7 @@ def _write_cells(f, cells, binary):
             cell_idx = meshio_to_vtk_order(cell_block.type)
             if cell_idx is not None:
                 d = d[:, cell_idx]
-            d.tofile(f, sep="\n")
+            f.write("\n".join(map(str, d.ravel().tolist())).encode())
             f.write(b"\n")
 
     # write cell types
@@ -619,13 +619,13 @@ def _write_cells(f, cells, binary):
     if binary:
         for c in cells:
             vtk_type = meshio_to_vtk_type[c.type]
-            np.full(len(c.data), vtk_type, dtype=np.dtype(">i4")).tofile(f, sep="")
+            f.write(np.full(len(c.data), vtk_type, dtype=np.dtype(">i4")).tobytes())
         f.write(b"\n")
     else:
         # ascii
         for c in cells:
             vtk_type = meshio_to_vtk_type[c.type]
-            np.full(len(c.data), vtk_type).tofile(f, sep="\n")
+            f.write("\n".join(len(c.data) * [str(vtk_type)]).encode())
             f.write(b"\n")
 
 
@@ -647,9 +647,9 @@ def _write_field_data(f, data, binary):
         vtk_dtype = numpy_to_vtk_dtype[values.dtype.name]
         f.write(f"{name} {num_components} {num_tuples} {vtk_dtype}\n".encode())
         if binary:
-            values.astype(values.dtype.newbyteorder(">")).tofile(f, sep="")
+            f.write(values.astype(values.dtype.newbyteorder(">")).tobytes())
         else:
             # ascii
-            values.tofile(f, sep=" ")
+            f.write(" ".join(map(str, values.ravel().tolist())).encode())
             # np.savetxt(f, points)
         f.write(b"\n")
-- 
2.43.0


From 9f8b215ced145c6996951691311ac359a3f1b4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:41 +0000
Subject: [PATCH 18/90] fix: xdmf writer: arrays are written through the file
 object, so that storage errors are raised

ndarray.tofile() ignores errors on its final flush: on a full disk the
write returned normally and left a truncated file.
---
 src/meshio/xdmf/main.py        | 2 +-
 src/meshio/xdmf/time_series.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/meshio/xdmf/main.py b/src/meshio/xdmf/main.py
index a7ae1eb..6a3e016 100644
--- a/src/meshio/xdmf/main.py
+++ b/src/meshio/xdmf/main.py
@@ -387,7 +387,7 @@ class XdmfWriter:
             self.data_counter += 1
             # write binary data to file
             with open(bin_filename, "wb") as f:
-                data.tofile(f)
+                f.write(data.tobytes())
             # relative to the XDMF (XML) file, as for HDF
             return os.path.basename(bin_filename)
 
diff --git a/src/meshio/xdmf/time_series.py b/src/meshio/xdmf/time_series.py
index 9a0610c..8c62fc7 100644
--- a/src/meshio/xdmf/time_series.py
+++ b/src/meshio/xdmf/time_series.py
@@ -333,7 +333,7 @@ class TimeSeriesWriter:
             self.data_counter += 1
             # write binary data to file
             with open(self.filename.parent / bin_filename, "wb") as f:
-                data.tofile(f)
+                f.write(data.tobytes())
             return bin_filename
 
         if self.data_format != "HDF":
-- 
2.43.0


From ffe6caaa1a8396458479e2eb6fc4b4c92ad8e60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:21 +0000
Subject: [PATCH 19/90] fix: cgns: HDF5 files are closed explicitly, so that
 storage errors are raised

---
 src/meshio/cgns/_cgns.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/meshio/cgns/_cgns.py b/src/meshio/cgns/_cgns.py
index fde2ae7..2b4c946 100644
--- a/src/meshio/cgns/_cgns.py
+++ b/src/meshio/cgns/_cgns.py
@@ -14,8 +14,11 @@ from .._mesh import Mesh
 def read(filename):
     import h5py
 
-    f = h5py.File(filename, "r")
+    with h5py.File(filename, "r") as f:
+        return _read(f)
 
+
+def _read(f):
     if "Base" not in f:
         raise ReadError('Expected "Base" in file. Malformed CGNS?')
 
@@ -43,8 +46,11 @@ def read(filename):
 def write(filename, mesh, compression="gzip", compression_opts=4):
     import h5py
 
-    f = h5py.File(filename, "w")
+    with h5py.File(filename, "w") as f:
+        _write(f, mesh, compression, compression_opts)
+
 
+def _write(f, mesh, compression, compression_opts):
     base = f.create_group("Base")
 
     # TODO something is missing here
-- 
2.43.0


From f59288965e71366f569e127b4560c0f8bc157657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:21 +0000
Subject: [PATCH 20/90] fix: h5m: HDF5 files are closed explicitly, so that
 storage errors are raised

---
 src/meshio/h5m/_h5m.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/meshio/h5m/_h5m.py b/src/meshio/h5m/_h5m.py
index 62a790a..80ca53c 100644
--- a/src/meshio/h5m/_h5m.py
+++ b/src/meshio/h5m/_h5m.py
@@ -21,7 +21,11 @@ from .._mesh import CellBlock, Mesh
 def read(filename):
     import h5py
 
-    f = h5py.File(filename, "r")
+    with h5py.File(filename, "r") as f:
+        return _read(f)
+
+
+def _read(f):
     dset = f["tstt"]
 
     points = dset["nodes"]["coordinates"][()]
@@ -116,7 +120,12 @@ def read(filename):
 def write(filename, mesh, add_global_ids=True, compression="gzip", compression_opts=4):
     import h5py
 
-    f = h5py.File(filename, "w")
+    with h5py.File(filename, "w") as f:
+        _write(f, mesh, add_global_ids, compression, compression_opts)
+
+
+def _write(f, mesh, add_global_ids, compression, compression_opts):
+    import h5py
 
     tstt = f.create_group("tstt")
 
-- 
2.43.0


From 72ee558892bfbb8ec6444a6a20b31f059562faea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:21 +0000
Subject: [PATCH 21/90] fix: med: HDF5 files are closed explicitly, so that
 storage errors are raised

---
 src/meshio/med/_med.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/meshio/med/_med.py b/src/meshio/med/_med.py
index 0cdd35c..ee4a45d 100644
--- a/src/meshio/med/_med.py
+++ b/src/meshio/med/_med.py
@@ -35,8 +35,11 @@ numpy_void_str = np.bytes_("")
 def read(filename):
     import h5py
 
-    f = h5py.File(filename, "r")
+    with h5py.File(filename, "r") as f:
+        return _read(f)
 
+
+def _read(f):
     # Mesh ensemble
     mesh_ensemble = f["ENS_MAA"]
     meshes = mesh_ensemble.keys()
@@ -217,8 +220,11 @@ def write(filename, mesh):
     # <https://github.com/nschloe/meshio/issues/781#issuecomment-616438066>
     # compression = None
 
-    f = h5py.File(filename, "w")
+    with h5py.File(filename, "w") as f:
+        _write(f, mesh)
+
 
+def _write(f, mesh):
     # Strangely the version must be 3.0.x
     # Any version >= 3.1.0 will NOT work with SALOME 8.3
     info = f.create_group("INFOS_GENERALES")
-- 
2.43.0


From 0147cca81d119563563e39105d1f81bf7f9f3be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:21 +0000
Subject: [PATCH 22/90] fix: xdmf: HDF5 files are closed explicitly, so that
 storage errors are raised

---
 src/meshio/xdmf/main.py        | 17 ++++++++++-------
 src/meshio/xdmf/time_series.py |  8 +++++---
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/meshio/xdmf/main.py b/src/meshio/xdmf/main.py
index 6a3e016..438650f 100644
--- a/src/meshio/xdmf/main.py
+++ b/src/meshio/xdmf/main.py
@@ -109,16 +109,15 @@ class XdmfReader:
         dirname = pathlib.Path(self.filename).resolve().parent
         full_hdf5_path = dirname / filename
 
-        f = h5py.File(full_hdf5_path, "r")
-
         # Some files don't contain the leading slash /.
         if h5path[0] == "/":
             h5path = h5path[1:]
 
-        for key in h5path.split("/"):
-            f = f[key]
-        # `[()]` gives a np.ndarray
-        return f[()]
+        with h5py.File(full_hdf5_path, "r") as f:
+            for key in h5path.split("/"):
+                f = f[key]
+            # `[()]` gives a np.ndarray
+            return f[()]
 
     def read_information(self, c_data):
         field_data = {}
@@ -355,8 +354,12 @@ class XdmfWriter:
 
         if data_format == "HDF":
             self.h5_filename = self.filename.with_suffix(".h5")
-            self.h5_file = h5py.File(self.h5_filename, "w")
+            with h5py.File(self.h5_filename, "w") as self.h5_file:
+                self.write(filename, mesh)
+        else:
+            self.write(filename, mesh)
 
+    def write(self, filename, mesh):
         xdmf_file = ET.Element("Xdmf", Version="3.0")
 
         domain = ET.SubElement(xdmf_file, "Domain")
diff --git a/src/meshio/xdmf/time_series.py b/src/meshio/xdmf/time_series.py
index 8c62fc7..c13bf8a 100644
--- a/src/meshio/xdmf/time_series.py
+++ b/src/meshio/xdmf/time_series.py
@@ -269,9 +269,11 @@ class TimeSeriesWriter:
         return self
 
     def __exit__(self, *_):
-        write_xml(self.filename, self.xdmf_file)
-        if self.data_format == "HDF":
-            self.h5_file.close()
+        try:
+            write_xml(self.filename, self.xdmf_file)
+        finally:
+            if self.data_format == "HDF":
+                self.h5_file.close()
 
     def write_points_cells(
         self,
-- 
2.43.0


From fee93386cf17f7f1ad546f1321e3160c4a418054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:02 +0000
Subject: [PATCH 23/90] fix: avsucd reader: meshes with a single point

---
 src/meshio/avsucd/_avsucd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/avsucd/_avsucd.py b/src/meshio/avsucd/_avsucd.py
index 6b76103..0e78d9d 100644
--- a/src/meshio/avsucd/_avsucd.py
+++ b/src/meshio/avsucd/_avsucd.py
@@ -78,7 +78,7 @@ def read_buffer(f):
 
 def _read_nodes(f, num_nodes):
     if num_nodes > 0:
-        data = np.genfromtxt(f, max_rows=num_nodes)
+        data = np.genfromtxt(f, max_rows=num_nodes).reshape(num_nodes, -1)
     else:
         data = np.empty((0, 3))
     points_ids = {int(pid): i for i, pid in enumerate(data[:, 0])}
-- 
2.43.0


From f068989ef0e16af39881999e8c1139411ba1ba8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:17 +0000
Subject: [PATCH 24/90] fix: netgen reader: meshes with a single point

---
 src/meshio/netgen/_netgen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/netgen/_netgen.py b/src/meshio/netgen/_netgen.py
index cae1bd7..a9b933a 100644
--- a/src/meshio/netgen/_netgen.py
+++ b/src/meshio/netgen/_netgen.py
@@ -264,7 +264,7 @@ def read_buffer(f):
         elif line == "points":
             num_points = int(f.readline())
             if num_points > 0:
-                points = np.loadtxt(f, max_rows=num_points)
+                points = np.loadtxt(f, max_rows=num_points, ndmin=2)
                 if dimension != 3:
                     points = points[:, :dimension]
 
-- 
2.43.0


From b3b2d5db4402bc90e556831b271fb98af36b89ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:54 +0000
Subject: [PATCH 25/90] fix: HDF5 writers: storage errors are raised, not
 merely printed by h5py

h5py ignores the error if the last flush of a dataset fails when it drops
it, so writes returned normally and left files with holes.
---
 src/meshio/_common.py          |  8 ++++++++
 src/meshio/cgns/_cgns.py       | 16 +++++++++++-----
 src/meshio/h5m/_h5m.py         | 21 ++++++++++++++-------
 src/meshio/hmf/_hmf.py         | 14 +++++++++-----
 src/meshio/med/_med.py         | 16 +++++++++-------
 src/meshio/xdmf/main.py        | 10 ++++++++--
 src/meshio/xdmf/time_series.py |  9 +++++++--
 7 files changed, 66 insertions(+), 28 deletions(-)

diff --git a/src/meshio/_common.py b/src/meshio/_common.py
index a92ef0e..c903b0e 100644
--- a/src/meshio/_common.py
+++ b/src/meshio/_common.py
@@ -96,6 +96,14 @@ def raw_from_cell_data(cell_data):
     return {name: np.concatenate(value) for name, value in cell_data.items()}
 
 
+def create_dataset(group, *args, **kwargs):
+    """Create an HDF5 dataset and hand its data to the storage. h5py merely prints
+    storage errors which only show up when it later drops the dataset."""
+    dataset = group.create_dataset(*args, **kwargs)
+    dataset.flush()
+    return dataset
+
+
 def write_xml(filename, root):
     tree = ET.ElementTree(root)
     tree.write(filename)
diff --git a/src/meshio/cgns/_cgns.py b/src/meshio/cgns/_cgns.py
index 2b4c946..e81398d 100644
--- a/src/meshio/cgns/_cgns.py
+++ b/src/meshio/cgns/_cgns.py
@@ -6,6 +6,7 @@ TODO link to specification?
 
 import numpy as np
 
+from .._common import create_dataset
 from .._exceptions import ReadError
 from .._helpers import register_format
 from .._mesh import Mesh
@@ -60,21 +61,24 @@ def _write(f, mesh, compression, compression_opts):
 
     # write points
     coord_x = coords.create_group("CoordinateX")
-    coord_x.create_dataset(
+    create_dataset(
+        coord_x,
         " data",
         data=mesh.points[:, 0],
         compression=compression,
         compression_opts=compression_opts,
     )
     coord_y = coords.create_group("CoordinateY")
-    coord_y.create_dataset(
+    create_dataset(
+        coord_y,
         " data",
         data=mesh.points[:, 1],
         compression=compression,
         compression_opts=compression_opts,
     )
     coord_z = coords.create_group("CoordinateZ")
-    coord_z.create_dataset(
+    create_dataset(
+        coord_z,
         " data",
         data=mesh.points[:, 2],
         compression=compression,
@@ -87,7 +91,8 @@ def _write(f, mesh, compression, compression_opts):
     rnge = elems.create_group("ElementRange")
     for cell_block in mesh.cells:
         if cell_block.type == "tetra":
-            rnge.create_dataset(
+            create_dataset(
+                rnge,
                 " data",
                 data=[1, cell_block.data.shape[0]],
                 compression=compression,
@@ -96,7 +101,8 @@ def _write(f, mesh, compression, compression_opts):
     conn = elems.create_group("ElementConnectivity")
     for cell_block in mesh.cells:
         if cell_block.type == "tetra":
-            conn.create_dataset(
+            create_dataset(
+                conn,
                 " data",
                 data=cell_block.data.reshape(-1) + 1,
                 compression=compression,
diff --git a/src/meshio/h5m/_h5m.py b/src/meshio/h5m/_h5m.py
index 80ca53c..8b4854b 100644
--- a/src/meshio/h5m/_h5m.py
+++ b/src/meshio/h5m/_h5m.py
@@ -8,7 +8,7 @@ from datetime import datetime
 import numpy as np
 
 from .. import __about__
-from .._common import warn
+from .._common import create_dataset, warn
 from .._helpers import register_format
 from .._mesh import CellBlock, Mesh
 
@@ -134,7 +134,8 @@ def _write(f, mesh, add_global_ids, compression, compression_opts):
 
     # add nodes
     nodes = tstt.create_group("nodes")
-    coords = nodes.create_dataset(
+    coords = create_dataset(
+        nodes,
         "coordinates",
         data=mesh.points,
         compression=compression,
@@ -160,7 +161,8 @@ def _write(f, mesh, add_global_ids, compression, compression_opts):
     for key, data in pd.items():
         if len(data.shape) == 1:
             dtype = data.dtype
-            tags.create_dataset(
+            create_dataset(
+                tags,
                 key,
                 data=data,
                 compression=compression,
@@ -171,7 +173,8 @@ def _write(f, mesh, add_global_ids, compression, compression_opts):
             # array with k-tuples as entries.
             n, k = data.shape
             dtype = np.dtype((data.dtype, (k,)))
-            dset = tags.create_dataset(
+            dset = create_dataset(
+                tags,
                 key,
                 (n,),
                 dtype=dtype,
@@ -179,6 +182,7 @@ def _write(f, mesh, add_global_ids, compression, compression_opts):
                 compression_opts=compression_opts,
             )
             dset[:] = data
+            dset.flush()
 
         # Create entry in global tags
         g = tstt_tags.create_group(key)
@@ -221,7 +225,8 @@ def _write(f, mesh, add_global_ids, compression, compression_opts):
 
     tstt["elemtypes"] = elem_dt
 
-    tstt.create_dataset(
+    create_dataset(
+        tstt,
         "history",
         data=[
             __name__.encode(),
@@ -248,7 +253,8 @@ def _write(f, mesh, add_global_ids, compression, compression_opts):
         elem_group = elements.create_group(this_type["name"])
         elem_group.attrs.create("element_type", this_type["type"], dtype=elem_dt)
         # h5m node indices are 1-based
-        conn = elem_group.create_dataset(
+        conn = create_dataset(
+            elem_group,
             "connectivity",
             data=(data + 1),
             compression=compression,
@@ -262,7 +268,8 @@ def _write(f, mesh, add_global_ids, compression, compression_opts):
         if cd:
             tags = elem_group.create_group("tags")
             for key, value in cd.items():
-                tags.create_dataset(
+                create_dataset(
+                    tags,
                     key,
                     data=value,
                     compression=compression,
diff --git a/src/meshio/hmf/_hmf.py b/src/meshio/hmf/_hmf.py
index b4af72f..ebcdfe0 100644
--- a/src/meshio/hmf/_hmf.py
+++ b/src/meshio/hmf/_hmf.py
@@ -1,6 +1,6 @@
 import meshio
 
-from .._common import cell_data_from_raw, raw_from_cell_data, warn
+from .._common import cell_data_from_raw, create_dataset, raw_from_cell_data, warn
 from .._helpers import register_format
 from ..xdmf.common import meshio_to_xdmf_type, xdmf_to_meshio_type
 
@@ -73,7 +73,8 @@ def write(filename, mesh, compression="gzip", compression_opts=4):
 
 
 def _write_points(grid, points, compression, compression_opts):
-    geo = grid.create_dataset(
+    geo = create_dataset(
+        grid,
         "Geometry",
         data=points,
         compression=compression,
@@ -85,7 +86,8 @@ def _write_points(grid, points, compression, compression_opts):
 def _write_cells(cell_blocks, grid, compression, compression_opts):
     for k, cell_block in enumerate(cell_blocks):
         xdmf_type = meshio_to_xdmf_type[cell_block.type][0]
-        topo = grid.create_dataset(
+        topo = create_dataset(
+            grid,
             f"Topology{k}",
             data=cell_block.data,
             compression=compression,
@@ -127,7 +129,8 @@ def _write_cells(cell_blocks, grid, compression, compression_opts):
 def _write_point_data(point_data, grid, compression, compression_opts):
     na = grid.create_group("NodeAttributes")
     for name, data in point_data.items():
-        na.create_dataset(
+        create_dataset(
+            na,
             name,
             data=data,
             compression=compression,
@@ -139,7 +142,8 @@ def _write_cell_data(cell_data, grid, compression, compression_opts):
     raw = raw_from_cell_data(cell_data)
     ca = grid.create_group("CellAttributes")
     for name, data in raw.items():
-        ca.create_dataset(
+        create_dataset(
+            ca,
             name,
             data=data,
             compression=compression,
diff --git a/src/meshio/med/_med.py b/src/meshio/med/_med.py
index ee4a45d..e6967a1 100644
--- a/src/meshio/med/_med.py
+++ b/src/meshio/med/_med.py
@@ -5,7 +5,7 @@ I/O for MED/Salome, cf.
 
 import numpy as np
 
-from .._common import num_nodes_per_cell
+from .._common import create_dataset, num_nodes_per_cell
 from .._exceptions import ReadError, WriteError
 from .._helpers import register_format
 from .._mesh import Mesh
@@ -262,13 +262,13 @@ def _write(f, mesh):
     nodes_group.attrs.create("CGS", 1)
     profile = "MED_NO_PROFILE_INTERNAL"
     nodes_group.attrs.create("PFL", np.bytes_(profile))
-    coo = nodes_group.create_dataset("COO", data=mesh.points.flatten(order="F"))
+    coo = create_dataset(nodes_group, "COO", data=mesh.points.flatten(order="F"))
     coo.attrs.create("CGT", 1)
     coo.attrs.create("NBR", len(mesh.points))
 
     # Point tags
     if "point_tags" in mesh.point_data:  # only works for med -> med
-        family = nodes_group.create_dataset("FAM", data=mesh.point_data["point_tags"])
+        family = create_dataset(nodes_group, "FAM", data=mesh.point_data["point_tags"])
         family.attrs.create("CGT", 1)
         family.attrs.create("NBR", len(mesh.points))
 
@@ -285,13 +285,14 @@ def _write(f, mesh):
         med_cells.attrs.create("CGT", 1)
         med_cells.attrs.create("CGS", 1)
         med_cells.attrs.create("PFL", np.bytes_(profile))
-        nod = med_cells.create_dataset("NOD", data=cells.flatten(order="F") + 1)
+        nod = create_dataset(med_cells, "NOD", data=cells.flatten(order="F") + 1)
         nod.attrs.create("CGT", 1)
         nod.attrs.create("NBR", len(cells))
 
         # Cell tags
         if "cell_tags" in mesh.cell_data:  # works only for med -> med
-            family = med_cells.create_dataset(
+            family = create_dataset(
+                med_cells,
                 "FAM", data=mesh.cell_data["cell_tags"][k]
             )
             family.attrs.create("CGT", 1)
@@ -431,7 +432,7 @@ def _write_data(
     profile.attrs.create("GAU", numpy_void_str)
 
     # Dataset
-    profile.create_dataset("CO", data=data.flatten(order="F"))
+    create_dataset(profile, "CO", data=data.flatten(order="F"))
 
 
 def _create_component_names(n_components):
@@ -455,12 +456,13 @@ def _write_families(fm_group, tags):
         family.attrs.create("NUM", set_id)
         group = family.create_group("GRO")
         group.attrs.create("NBR", len(name))  # number of subsets
-        dataset = group.create_dataset("NOM", (len(name),), dtype="80int8")
+        dataset = create_dataset(group, "NOM", (len(name),), dtype="80int8")
         for i in range(len(name)):
             # make name 80 characters
             name_80 = name[i] + "\x00" * (80 - len(name[i]))
             # Needs numpy array, see <https://github.com/h5py/h5py/issues/1735>
             dataset[i] = np.array([ord(x) for x in name_80])
+        dataset.flush()
 
 
 register_format("med", [".med"], read, {"med": write})
diff --git a/src/meshio/xdmf/main.py b/src/meshio/xdmf/main.py
index 438650f..1eaafc3 100644
--- a/src/meshio/xdmf/main.py
+++ b/src/meshio/xdmf/main.py
@@ -10,7 +10,12 @@ from xml.etree import ElementTree as ET
 
 import numpy as np
 
-from .._common import cell_data_from_raw, raw_from_cell_data, write_xml
+from .._common import (
+    cell_data_from_raw,
+    create_dataset,
+    raw_from_cell_data,
+    write_xml,
+)
 from .._exceptions import ReadError, WriteError
 from .._helpers import register_format
 from .._mesh import CellBlock, Mesh
@@ -398,7 +403,8 @@ class XdmfWriter:
             raise WriteError(f'Unknown data format "{self.data_format}"')
         name = f"data{self.data_counter}"
         self.data_counter += 1
-        self.h5_file.create_dataset(
+        create_dataset(
+            self.h5_file,
             name,
             data=data,
             compression=self.compression,
diff --git a/src/meshio/xdmf/time_series.py b/src/meshio/xdmf/time_series.py
index c13bf8a..6dc58c4 100644
--- a/src/meshio/xdmf/time_series.py
+++ b/src/meshio/xdmf/time_series.py
@@ -8,7 +8,12 @@ from xml.etree import ElementTree as ET
 import numpy as np
 from numpy.typing import ArrayLike
 
-from .._common import cell_data_from_raw, raw_from_cell_data, write_xml
+from .._common import (
+    cell_data_from_raw,
+    create_dataset,
+    raw_from_cell_data,
+    write_xml,
+)
 from .._exceptions import ReadError, WriteError
 from .._mesh import CellBlock
 from .common import (
@@ -342,7 +347,7 @@ class TimeSeriesWriter:
             raise WriteError()
         name = f"data{self.data_counter}"
         self.data_counter += 1
-        self.h5_file.create_dataset(name, data=data)
+        create_dataset(self.h5_file, name, data=data)
         return os.path.basename(self.h5_filename) + ":/" + name
 
     def points(self, grid, points):
-- 
2.43.0


From fa627533e1026ac0ff7470c52d083cda931d7be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:55 +0000
Subject: [PATCH 26/90] fix: ply writer: the mesh that is written is not
 modified

---
 src/meshio/ply/_ply.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/meshio/ply/_ply.py b/src/meshio/ply/_ply.py
index 4393cbc..8ea0830 100644
--- a/src/meshio/ply/_ply.py
+++ b/src/meshio/ply/_ply.py
@@ -392,6 +392,8 @@ def _read_binary_list(buffer, count_dtype, data_dtype, num_cells, endianness):
 
 
 def write(filename, mesh: Mesh, binary: bool = True):  # noqa: C901
+    # the cells may be cast below; don't alter the mesh data
+    cells = list(mesh.cells)
 
     with open_file(filename, "wb") as fh:
         fh.write(b"ply\n")
@@ -444,7 +446,7 @@ def write(filename, mesh: Mesh, binary: bool = True):  # noqa: C901
 
         num_cells = 0
         legal_cell_types = ["vertex", "line", "triangle", "quad", "polygon"]
-        for cell_block in mesh.cells:
+        for cell_block in cells:
             if cell_block.type in legal_cell_types:
                 num_cells += cell_block.data.shape[0]
 
@@ -452,12 +454,11 @@ def write(filename, mesh: Mesh, binary: bool = True):  # noqa: C901
             fh.write(f"element face {num_cells:d}\n".encode())
 
             # possibly cast down to int32
-            # TODO don't alter the mesh data
             has_cast = False
-            for k, cell_block in enumerate(mesh.cells):
+            for k, cell_block in enumerate(cells):
                 if cell_block.data.dtype == np.int64:
                     has_cast = True
-                    mesh.cells[k] = CellBlock(
+                    cells[k] = CellBlock(
                         cell_block.type, cell_block.data.astype(np.int32)
                     )
 
@@ -466,7 +467,7 @@ def write(filename, mesh: Mesh, binary: bool = True):  # noqa: C901
 
             # assert that all cell dtypes are equal
             cell_dtype = None
-            for cell_block in mesh.cells:
+            for cell_block in cells:
                 if cell_dtype is None:
                     cell_dtype = cell_block.data.dtype
                 if cell_block.data.dtype != cell_dtype:
@@ -485,7 +486,7 @@ def write(filename, mesh: Mesh, binary: bool = True):  # noqa: C901
             fh.write(out.tobytes())
 
             # cells
-            for cell_block in mesh.cells:
+            for cell_block in cells:
                 if cell_block.type not in legal_cell_types:
                     warn(
                         f'cell_type "{cell_block.type}" is not supported by PLY format '
@@ -508,7 +509,7 @@ def write(filename, mesh: Mesh, binary: bool = True):  # noqa: C901
             fh.write(out.encode())
 
             # cells
-            for cell_block in mesh.cells:
+            for cell_block in cells:
                 if cell_block.type not in legal_cell_types:
                     warn(
                         f'cell_type "{cell_block.type}" is not supported by PLY format '
-- 
2.43.0


From 9256c72925edf34cbdc5f964e2fb3e899d54fc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:55 +0000
Subject: [PATCH 27/90] fix: avsucd writer: the mesh that is written is not
 modified

---
 src/meshio/avsucd/_avsucd.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/meshio/avsucd/_avsucd.py b/src/meshio/avsucd/_avsucd.py
index 0e78d9d..3d13d24 100644
--- a/src/meshio/avsucd/_avsucd.py
+++ b/src/meshio/avsucd/_avsucd.py
@@ -150,7 +150,9 @@ def write(filename, mesh):
             "AVS-UCD requires 3D points, but 2D points given. "
             "Appending 0 third component."
         )
-        mesh.points = np.column_stack([mesh.points, np.zeros_like(mesh.points[:, 0])])
+        points = np.column_stack([mesh.points, np.zeros_like(mesh.points[:, 0])])
+    else:
+        points = mesh.points
 
     with open_file(filename, "w") as f:
         # Write meshio version
@@ -187,7 +189,7 @@ def write(filename, mesh):
         f.write(f"{num_nodes} {num_cells} {num_node_data_sum} {num_cell_data_sum} 0\n")
 
         # Write nodes
-        _write_nodes(f, mesh.points)
+        _write_nodes(f, points)
 
         # Write cells
         _write_cells(f, mesh.cells, material)
-- 
2.43.0


From c5085e85c74eee5f445d4a3ecd126753d654b02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:55 +0000
Subject: [PATCH 28/90] fix: flac3d writer: the cell sets of the mesh are not
 modified, mixed meshes with cell sets

---
 src/meshio/flac3d/_flac3d.py | 34 +++++++++++++---------------------
 1 file changed, 13 insertions(+), 21 deletions(-)

diff --git a/src/meshio/flac3d/_flac3d.py b/src/meshio/flac3d/_flac3d.py
index 45ea0d9..f2ebf8c 100644
--- a/src/meshio/flac3d/_flac3d.py
+++ b/src/meshio/flac3d/_flac3d.py
@@ -370,40 +370,32 @@ def split_f_z(mesh):
         zsets[key] = []
         fsets[key] = []
         for cell_block, sblock in zip(mesh.cells, cset):
-            zsets[key].append(
-                sblock if cell_block.type in meshio_only["zone"] else None
-            )
-            fsets[key].append(
-                sblock if cell_block.type in meshio_only["face"] else None
-            )
+            if cell_block.type in meshio_only["zone"]:
+                zsets[key].append(sblock)
+            elif cell_block.type in meshio_only["face"]:
+                fsets[key].append(sblock)
 
-    # remove the data that is only None
-    zsets = {
-        key: value
-        for key, value in zsets.items()
-        if not all(item is None for item in value)
-    }
-    fsets = {
-        key: value
-        for key, value in fsets.items()
-        if not all(item is None for item in value)
-    }
+    # remove the sets without any block
+    zsets = {key: value for key, value in zsets.items() if value}
+    fsets = {key: value for key, value in fsets.items() if value}
 
     # Right now, the zsets contain indices into the corresponding cell block.
     # FLAC3D expects _global_ indices. Update.
     cell_block_sizes = [len(cb) for cb in zcells]
     for key, data in zsets.items():
         gid = 0
-        for n, block in zip(cell_block_sizes, data):
-            block += gid
+        for k, n in enumerate(cell_block_sizes):
+            # not in place, the arrays belong to the mesh
+            data[k] = data[k] + gid
             gid += n
 
     # TODO not sure if fcells and zcells share a common global index
     cell_block_sizes = [len(cb) for cb in fcells]
     for key, data in fsets.items():
         gid = 0
-        for n, block in zip(cell_block_sizes, data):
-            block += gid
+        for k, n in enumerate(cell_block_sizes):
+            # not in place, the arrays belong to the mesh
+            data[k] = data[k] + gid
             gid += n
 
     for label, values in zsets.items():
-- 
2.43.0


From 0543de312b902ff2e727b910c2d9ee60cdccbe28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:11 +0000
Subject: [PATCH 29/90] fix: flac3d reader: read from buffers

---
 src/meshio/flac3d/_flac3d.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/meshio/flac3d/_flac3d.py b/src/meshio/flac3d/_flac3d.py
index f2ebf8c..9148163 100644
--- a/src/meshio/flac3d/_flac3d.py
+++ b/src/meshio/flac3d/_flac3d.py
@@ -102,8 +102,11 @@ def read(filename):
     # Read a small block of the file to assess its type
     # See <https://code.activestate.com/recipes/173220/>
     with open_file(filename, "rb") as f:
+        pos = f.tell()
         block = f.read(8)
-        binary = b"\x00" in block
+        binary = isinstance(block, bytes) and b"\x00" in block
+        # rewind, `filename` may be a buffer
+        f.seek(pos)
 
     mode = "rb" if binary else "r"
     with open_file(filename, mode) as f:
-- 
2.43.0


From fad3cb76e701a1ac11898e8d4b1bd44a75e2ebe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:10 +0000
Subject: [PATCH 30/90] fix: ansys reader: truncated files do not make it loop
 forever

---
 src/meshio/ansys/_ansys.py | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/meshio/ansys/_ansys.py b/src/meshio/ansys/_ansys.py
index 5cd3076..3ab4158 100644
--- a/src/meshio/ansys/_ansys.py
+++ b/src/meshio/ansys/_ansys.py
@@ -16,15 +16,32 @@ from .._helpers import register_format
 from .._mesh import Mesh
 
 
+def _read_char(f):
+    c = f.read(1).decode()
+    if not c:
+        raise ReadError("Unexpected end of file.")
+    return c
+
+
+def _read_data_line(f):
+    # skip ahead to the first line with data
+    line = "\n"
+    while line.strip() == "":
+        line = f.readline().decode()
+        if not line:
+            raise ReadError("Unexpected end of file.")
+    return line
+
+
 def _skip_to(f, char):
     c = None
     while c != char:
-        c = f.read(1).decode()
+        c = _read_char(f)
 
 
 def _skip_close(f, num_open_brackets):
     while num_open_brackets > 0:
-        char = f.read(1).decode()
+        char = _read_char(f)
         if char == "(":
             num_open_brackets += 1
         elif char == ")":
@@ -61,16 +78,13 @@ def _read_points(f, line, first_point_index_overall, last_point_index):
     # be the current line already).
     last_char = line.strip()[-1]
     while last_char != "(":
-        last_char = f.read(1).decode()
+        last_char = _read_char(f)
 
     if out.group(1) == "":
         # ASCII data
         pts = np.empty((num_points, dim))
         for k in range(num_points):
-            # skip ahead to the first line with data
-            line = ""
-            while line.strip() == "":
-                line = f.readline().decode()
+            line = _read_data_line(f)
             dat = line.split()
             if len(dat) != dim:
                 raise ReadError()
@@ -130,7 +144,7 @@ def _read_cells(f, line):
     if line.strip()[-1] != "(":
         c = None
         while True:
-            c = f.read(1).decode()
+            c = _read_char(f)
             if c == "(":
                 break
             if not re.match("\\s", c):
@@ -227,9 +241,7 @@ def _read_faces(f, line):
             # > type v0 v1 v2 c0 c1
             # >
             for k in range(num_cells):
-                line = ""
-                while line.strip() == "":
-                    line = f.readline().decode()
+                line = _read_data_line(f)
                 dat = line.split()
                 type_index = int(dat[0], 16)
                 if type_index == 0:
-- 
2.43.0


From 9c7c5b85a07ce84a43889cd2788367dbdbef5e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:10 +0000
Subject: [PATCH 31/90] fix: off reader: truncated files do not make it loop
 forever

---
 src/meshio/off/_off.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/meshio/off/_off.py b/src/meshio/off/_off.py
index c3b670b..f657f65 100644
--- a/src/meshio/off/_off.py
+++ b/src/meshio/off/_off.py
@@ -31,7 +31,10 @@ def read_buffer(f):
 
     # fast forward to the next significant line
     while True:
-        line = f.readline().strip()
+        line = f.readline()
+        if not line:
+            raise ReadError("Unexpected end of file.")
+        line = line.strip()
         if line and line[0] != "#":
             break
 
-- 
2.43.0


From 846f0cba9995ade2affdb7d0a2ccacb3704fe87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:10 +0000
Subject: [PATCH 32/90] fix: ply reader: truncated files do not make it loop
 forever

---
 src/meshio/ply/_ply.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/meshio/ply/_ply.py b/src/meshio/ply/_ply.py
index 8ea0830..d3e5bb9 100644
--- a/src/meshio/ply/_ply.py
+++ b/src/meshio/ply/_ply.py
@@ -66,7 +66,10 @@ def read(filename):
 def _next_line(f):
     # fast forward to the next significant line
     while True:
-        line = f.readline().decode().strip()
+        line = f.readline().decode()
+        if not line:
+            raise ReadError("Unexpected end of file.")
+        line = line.strip()
         if line and line[:7] != "comment":
             break
     return line
-- 
2.43.0


From 356f79cde76e1ed3cb8fefecb299ccd5086ceb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:10 +0000
Subject: [PATCH 33/90] fix: tetgen reader: truncated files do not make it loop
 forever

---
 src/meshio/tetgen/_tetgen.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/meshio/tetgen/_tetgen.py b/src/meshio/tetgen/_tetgen.py
index c869496..0323272 100644
--- a/src/meshio/tetgen/_tetgen.py
+++ b/src/meshio/tetgen/_tetgen.py
@@ -14,6 +14,15 @@ from .._helpers import register_format
 from .._mesh import CellBlock, Mesh
 
 
+def _read_header(f):
+    # the first line that is neither blank nor a comment
+    for line in iter(f.readline, ""):
+        line = line.strip()
+        if len(line) > 0 and line[0] != "#":
+            return line
+    raise ReadError("Unexpected end of file.")
+
+
 def read(filename):
     filename = pathlib.Path(filename)
     if filename.suffix == ".node":
@@ -30,9 +39,7 @@ def read(filename):
 
     # read nodes
     with open(node_filename) as f:
-        line = f.readline().strip()
-        while len(line) == 0 or line[0] == "#":
-            line = f.readline().strip()
+        line = _read_header(f)
 
         num_points, dim, num_attrs, num_bmarkers = (
             int(item) for item in line.split(" ") if item != ""
@@ -63,9 +70,7 @@ def read(filename):
 
     # read elements
     with open(ele_filename.as_posix()) as f:
-        line = f.readline().strip()
-        while len(line) == 0 or line[0] == "#":
-            line = f.readline().strip()
+        line = _read_header(f)
 
         num_tets, num_points_per_tet, num_attrs = (
             int(item) for item in line.strip().split(" ") if item != ""
-- 
2.43.0


From 91802fb805cc83fd0118e388d35120f1a8c35624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:10 +0000
Subject: [PATCH 34/90] fix: nastran reader: truncated files do not make it
 loop forever

---
 src/meshio/nastran/_nastran.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/meshio/nastran/_nastran.py b/src/meshio/nastran/_nastran.py
index 0e1313c..7ce3e28 100644
--- a/src/meshio/nastran/_nastran.py
+++ b/src/meshio/nastran/_nastran.py
@@ -111,6 +111,8 @@ def read_buffer(f):
 
     while True:
         next_line = f.readline()
+        if not next_line:
+            raise ReadError("Premature EOF")
         # Blank lines or comments
         if len(next_line) < 4 or next_line.startswith(("$", "//", "#")):
             continue
-- 
2.43.0


From 26d0693785de3d1b371636f63a7cdfb915302fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:10 +0000
Subject: [PATCH 35/90] fix: mdpa reader: truncated files do not make it loop
 forever

---
 src/meshio/mdpa/_mdpa.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/meshio/mdpa/_mdpa.py b/src/meshio/mdpa/_mdpa.py
index afa39ec..cb923aa 100644
--- a/src/meshio/mdpa/_mdpa.py
+++ b/src/meshio/mdpa/_mdpa.py
@@ -109,6 +109,8 @@ def _read_nodes(f, is_ascii, data_size):
     num_nodes = 0
     while True:
         line = f.readline().decode()
+        if not line:
+            raise ReadError("Unexpected end of file.")
         if "End Nodes" in line:
             break
         num_nodes += 1
@@ -146,6 +148,8 @@ def _read_cells(f, cells, is_ascii, cell_tags, environ=None):
 
     while True:
         line = f.readline().decode()
+        if not line:
+            raise ReadError("Unexpected end of file.")
         if line.startswith("End Elements") or line.startswith("End Conditions"):
             break
         # data[0] gives the entity id
-- 
2.43.0


From cc9a47d877ccf1d64412defeebf77d75bfe744ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:24 +0000
Subject: [PATCH 36/90] fix: tecplot reader: truncated files do not make it
 loop forever

---
 src/meshio/tecplot/_tecplot.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/meshio/tecplot/_tecplot.py b/src/meshio/tecplot/_tecplot.py
index 4acf2c3..394be21 100644
--- a/src/meshio/tecplot/_tecplot.py
+++ b/src/meshio/tecplot/_tecplot.py
@@ -358,20 +358,26 @@ def _parse_fezone(zone, variables):
     return num_nodes, num_cells, zone_format, zone_type, is_cell_centered
 
 
+def _read_data_line(f):
+    for line in iter(f.readline, ""):
+        line = line.strip()
+        if line and not line.startswith("#"):
+            return line.split()
+    raise ReadError("Unexpected end of file.")
+
+
 def _read_zone_data(f, num_data, num_cells, zone_format):
     data, count = [], 0
     while count < num_data:
-        line = readline(f).split()
-        if line:
-            data += [[float(x) for x in line]]
-            count += len(line) if zone_format == "FEBLOCK" else 1
+        line = _read_data_line(f)
+        data += [[float(x) for x in line]]
+        count += len(line) if zone_format == "FEBLOCK" else 1
 
     cells, count = [], 0
     while count < num_cells:
-        line = readline(f).split()
-        if line:
-            cells += [[[int(x) for x in line]]]
-            count += 1
+        line = _read_data_line(f)
+        cells += [[[int(x) for x in line]]]
+        count += 1
 
     return data, np.concatenate(cells)
 
-- 
2.43.0


From c90d51ff6e3c2a84b8dd250fb468fe1de20ce52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:50 +0000
Subject: [PATCH 37/90] fix: abaqus writer: cell sets that span several cell
 blocks

---
 src/meshio/abaqus/_abaqus.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/meshio/abaqus/_abaqus.py b/src/meshio/abaqus/_abaqus.py
index 0dd8877..468a340 100644
--- a/src/meshio/abaqus/_abaqus.py
+++ b/src/meshio/abaqus/_abaqus.py
@@ -424,19 +424,21 @@ def write(
                 f.write(str(eid) + "," + ",".join(nids_strs) + "\n")
 
         nnl = 8
-        offset = 0
-        for ic in range(len(mesh.cells)):
-            for k, v in mesh.cell_sets.items():
-                if len(v[ic]) > 0:
-                    els = [str(i + 1 + offset) for i in v[ic]]
-                    f.write(f"*ELSET, ELSET={k}\n")
-                    f.write(
-                        ",\n".join(
-                            ",".join(els[i : i + nnl]) for i in range(0, len(els), nnl)
-                        )
-                        + "\n"
+        for k, v in mesh.cell_sets.items():
+            # one ELSET per set, with the element ids from all blocks
+            els = []
+            offset = 0
+            for ic in range(len(mesh.cells)):
+                els += [str(i + 1 + offset) for i in v[ic]]
+                offset += len(mesh.cells[ic].data)
+            if len(els) > 0:
+                f.write(f"*ELSET, ELSET={k}\n")
+                f.write(
+                    ",\n".join(
+                        ",".join(els[i : i + nnl]) for i in range(0, len(els), nnl)
                     )
-            offset += len(mesh.cells[ic].data)
+                    + "\n"
+                )
 
         for k, v in mesh.point_sets.items():
             nds = [str(i + 1) for i in v]
-- 
2.43.0


From 585833fd3634687f6abdaa203652d64a92169195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:50 +0000
Subject: [PATCH 38/90] fix: binary and ascii array readers: errors while
 reading are raised, arrays are never short

---
 src/meshio/_files.py           | 32 +++++++++++++++++++++++
 src/meshio/gmsh/_gmsh22.py     |  9 ++++---
 src/meshio/gmsh/_gmsh40.py     | 15 ++++++-----
 src/meshio/gmsh/_gmsh41.py     |  9 ++++---
 src/meshio/gmsh/common.py      |  5 ++--
 src/meshio/medit/_medit.py     | 47 +++++++++++++++++-----------------
 src/meshio/stl/_stl.py         |  6 ++---
 src/meshio/ugrid/_ugrid.py     |  8 +++---
 src/meshio/xdmf/main.py        |  9 ++++---
 src/meshio/xdmf/time_series.py | 10 +++++---
 10 files changed, 95 insertions(+), 55 deletions(-)

diff --git a/src/meshio/_files.py b/src/meshio/_files.py
index 3f533e0..b23ca45 100644
--- a/src/meshio/_files.py
+++ b/src/meshio/_files.py
@@ -1,5 +1,9 @@
 from contextlib import contextmanager
 
+import numpy as np
+
+from ._exceptions import ReadError
+
 
 def is_buffer(obj, mode):
     return ("r" in mode and hasattr(obj, "read")) or (
@@ -14,3 +18,31 @@ def open_file(path_or_buf, mode="r"):
     else:
         with open(path_or_buf, mode) as f:
             yield f
+
+
+def fromfile(f, dtype=float, count=-1, sep=""):
+    """Like np.fromfile(), but raises an exception if there are less than `count`
+    items. np.fromfile() reads through C streams which report errors only by returning
+    fewer items.
+    """
+    if sep == "":
+        dtype = np.dtype(dtype)
+        data = f.read(int(count) * dtype.itemsize if count >= 0 else -1)
+        if count < 0:
+            count = len(data) // dtype.itemsize
+        if len(data) < count * dtype.itemsize:
+            raise ReadError("Unexpected end of file.")
+        return np.frombuffer(data, dtype=dtype, count=int(count)).copy()
+
+    out = np.fromfile(f, dtype=dtype, count=int(count), sep=sep)
+    if len(out) < count:
+        raise ReadError("Unexpected end of file.")
+    if count > 0:
+        # the last item must be complete
+        pos = f.tell()
+        f.seek(pos - 1)
+        tail = f.read(2).split()
+        if len(tail) == 1 and len(tail[0]) == 2:
+            raise ReadError("Expected white space after number.")
+        f.seek(pos)
+    return out
diff --git a/src/meshio/gmsh/_gmsh22.py b/src/meshio/gmsh/_gmsh22.py
index 6e4ca1a..5e611ca 100644
--- a/src/meshio/gmsh/_gmsh22.py
+++ b/src/meshio/gmsh/_gmsh22.py
@@ -9,6 +9,7 @@ import numpy as np
 
 from .._common import cell_data_from_raw, num_nodes_per_cell, raw_from_cell_data, warn
 from .._exceptions import ReadError
+from .._files import fromfile as fromfile_
 from .._mesh import CellBlock, Mesh
 from .common import (
     _fast_forward_over_blank_lines,
@@ -102,14 +103,14 @@ def _read_nodes(f, is_ascii):
     line = f.readline().decode()
     num_nodes = int(line)
     if is_ascii:
-        points = np.fromfile(f, count=num_nodes * 4, sep=" ").reshape((num_nodes, 4))
+        points = fromfile_(f, count=num_nodes * 4, sep=" ").reshape((num_nodes, 4))
         # The first number is the index
         point_tags = points[:, 0]
         points = points[:, 1:]
     else:
         # binary
         dtype = [("index", c_int), ("x", c_double, (3,))]
-        data = np.fromfile(f, count=num_nodes, dtype=dtype)
+        data = fromfile_(f, count=num_nodes, dtype=dtype)
         if not (data["index"] == range(1, num_nodes + 1)).all():
             raise ReadError()
         points = np.ascontiguousarray(data["x"])
@@ -208,14 +209,14 @@ def _read_cells_binary(f, cells, cell_tags, total_num_cells):
     num_elems = 0
     while num_elems < total_num_cells:
         # read element header
-        elem_type, num_elems0, num_tags = np.fromfile(f, count=3, dtype=c_int)
+        elem_type, num_elems0, num_tags = fromfile_(f, count=3, dtype=c_int)
         t = _gmsh_to_meshio_type[elem_type]
         num_nodes_per_elem = num_nodes_per_cell[t]
 
         # read element data
         shape = (num_elems0, 1 + num_tags + num_nodes_per_elem)
         count = shape[0] * shape[1]
-        data = np.fromfile(f, count=count, dtype=c_int).reshape(shape)
+        data = fromfile_(f, count=count, dtype=c_int).reshape(shape)
 
         if len(cells) == 0 or t != cells[-1][0]:
             cells.append((t, []))
diff --git a/src/meshio/gmsh/_gmsh40.py b/src/meshio/gmsh/_gmsh40.py
index 0c8903f..fe86911 100644
--- a/src/meshio/gmsh/_gmsh40.py
+++ b/src/meshio/gmsh/_gmsh40.py
@@ -11,6 +11,7 @@ import numpy as np
 
 from .._common import cell_data_from_raw, num_nodes_per_cell, raw_from_cell_data
 from .._exceptions import ReadError
+from .._files import fromfile as fromfile_
 from .._mesh import CellBlock, Mesh
 from .common import (
     _fast_forward_to_end_block,
@@ -88,7 +89,7 @@ def read_buffer(f, is_ascii: bool, data_size) -> Mesh:
 
 def _read_entities(f, is_ascii: bool):
     physical_tags = tuple({} for _ in range(4))  # dims 0, 1, 2, 3
-    fromfile = partial(np.fromfile, sep=" " if is_ascii else "")
+    fromfile = partial(fromfile_, sep=" " if is_ascii else "")
     number = fromfile(f, c_ulong, 4)  # dims 0, 1, 2, 3
 
     for d, n in enumerate(number):
@@ -128,16 +129,16 @@ def _read_nodes(f, is_ascii):
                 idx += 1
     else:
         # numEntityBlocks(unsigned long) numNodes(unsigned long)
-        num_entity_blocks, _ = np.fromfile(f, count=2, dtype=c_ulong)
+        num_entity_blocks, _ = fromfile_(f, count=2, dtype=c_ulong)
 
         points = []
         tags = []
         for _ in range(num_entity_blocks):
             # tagEntity(int) dimEntity(int) typeNode(int) numNodes(unsigned long)
-            np.fromfile(f, count=3, dtype=c_int)
-            num_nodes = np.fromfile(f, count=1, dtype=c_ulong)[0]
+            fromfile_(f, count=3, dtype=c_int)
+            num_nodes = fromfile_(f, count=1, dtype=c_ulong)[0]
             dtype = [("tag", c_int), ("x", c_double, (3,))]
-            data = np.fromfile(f, count=num_nodes, dtype=dtype)
+            data = fromfile_(f, count=num_nodes, dtype=dtype)
             tags.append(data["tag"])
             points.append(data["x"])
 
@@ -153,7 +154,7 @@ def _read_nodes(f, is_ascii):
 
 
 def _read_elements(f, point_tags, physical_tags, is_ascii):
-    fromfile = partial(np.fromfile, sep=" " if is_ascii else "")
+    fromfile = partial(fromfile_, sep=" " if is_ascii else "")
 
     # numEntityBlocks(unsigned long) numElements(unsigned long)
     num_entity_blocks, _ = fromfile(f, c_ulong, 2)
@@ -207,7 +208,7 @@ def _read_elements(f, point_tags, physical_tags, is_ascii):
 
 
 def _read_periodic(f, is_ascii):
-    fromfile = partial(np.fromfile, sep=" " if is_ascii else "")
+    fromfile = partial(fromfile_, sep=" " if is_ascii else "")
     periodic = []
     num_periodic = int(fromfile(f, c_int, 1)[0])
     for _ in range(num_periodic):
diff --git a/src/meshio/gmsh/_gmsh41.py b/src/meshio/gmsh/_gmsh41.py
index 914cff9..e024e63 100644
--- a/src/meshio/gmsh/_gmsh41.py
+++ b/src/meshio/gmsh/_gmsh41.py
@@ -9,6 +9,7 @@ import numpy as np
 
 from .._common import cell_data_from_raw, num_nodes_per_cell, raw_from_cell_data, warn
 from .._exceptions import ReadError, WriteError
+from .._files import fromfile as fromfile_
 from .._mesh import CellBlock, Mesh
 from .common import (
     _fast_forward_over_blank_lines,
@@ -120,7 +121,7 @@ def _read_entities(f, is_ascii: bool, data_size):
     # is not difficult, but for the moment, the entropy of adding more data
     # does not seem warranted.
 
-    fromfile = partial(np.fromfile, sep=" " if is_ascii else "")
+    fromfile = partial(fromfile_, sep=" " if is_ascii else "")
     c_size_t = _size_type(data_size)
     physical_tags = ({}, {}, {}, {})
     bounding_entities = ({}, {}, {}, {})
@@ -147,7 +148,7 @@ def _read_nodes(f, is_ascii: bool, data_size):
     # Note that entity tags are 1-offset within each dimension, thus it is
     # necessary to keep track of both tag and dimension of the entity
 
-    fromfile = partial(np.fromfile, sep=" " if is_ascii else "")
+    fromfile = partial(fromfile_, sep=" " if is_ascii else "")
     c_size_t = _size_type(data_size)
 
     # numEntityBlocks numNodes minNodeTag maxNodeTag (all size_t)
@@ -194,7 +195,7 @@ def _read_nodes(f, is_ascii: bool, data_size):
 def _read_elements(
     f, point_tags, physical_tags, bounding_entities, is_ascii, data_size, field_data
 ):
-    fromfile = partial(np.fromfile, sep=" " if is_ascii else "")
+    fromfile = partial(fromfile_, sep=" " if is_ascii else "")
     c_size_t = _size_type(data_size)
 
     # numEntityBlocks numElements minElementTag maxElementTag (all size_t)
@@ -271,7 +272,7 @@ def _read_elements(
 
 
 def _read_periodic(f, is_ascii, data_size):
-    fromfile = partial(np.fromfile, sep=" " if is_ascii else "")
+    fromfile = partial(fromfile_, sep=" " if is_ascii else "")
     c_size_t = _size_type(data_size)
     periodic = []
     # numPeriodicLinks(size_t)
diff --git a/src/meshio/gmsh/common.py b/src/meshio/gmsh/common.py
index 1e13294..0490dd9 100644
--- a/src/meshio/gmsh/common.py
+++ b/src/meshio/gmsh/common.py
@@ -7,6 +7,7 @@ from numpy.typing import ArrayLike
 
 from .._common import warn
 from .._exceptions import ReadError, WriteError
+from .._files import fromfile as fromfile_
 
 c_int = np.dtype("int32")
 c_double = np.dtype("float64")
@@ -66,7 +67,7 @@ def _read_data(f, tag, data_dict, data_size, is_ascii):
     num_components = integer_tags[1]
     num_items = integer_tags[2]
     if is_ascii:
-        data = np.fromfile(f, count=num_items * (1 + num_components), sep=" ").reshape(
+        data = fromfile_(f, count=num_items * (1 + num_components), sep=" ").reshape(
             (num_items, 1 + num_components)
         )
         # The first entry is the node number
@@ -74,7 +75,7 @@ def _read_data(f, tag, data_dict, data_size, is_ascii):
     else:
         # binary
         dtype = [("index", c_int), ("values", c_double, (num_components,))]
-        data = np.fromfile(f, count=num_items, dtype=dtype)
+        data = fromfile_(f, count=num_items, dtype=dtype)
         if not (data["index"] == range(1, num_items + 1)).all():
             raise ReadError()
         data = np.ascontiguousarray(data["values"])
diff --git a/src/meshio/medit/_medit.py b/src/meshio/medit/_medit.py
index e9c8fa3..1664446 100644
--- a/src/meshio/medit/_medit.py
+++ b/src/meshio/medit/_medit.py
@@ -11,15 +11,16 @@ import numpy as np
 
 from .._common import _pick_first_int_data, warn
 from .._exceptions import ReadError
-from .._files import open_file
+from .._files import fromfile, open_file
 from .._helpers import register_format
 from .._mesh import Mesh
 from ._medit_internal import medit_codes
 
 
 def read(filename):
-    with open_file(filename) as f:
-        if str(filename)[-1] == "b":
+    is_binary = str(filename)[-1] == "b"
+    with open_file(filename, "rb" if is_binary else "r") as f:
+        if is_binary:
             mesh = read_binary_buffer(f)
         else:
             mesh = read_ascii_buffer(f)
@@ -74,7 +75,7 @@ def read_binary_buffer(f):
     # the file version
     keytype = "i4"
 
-    code = np.fromfile(f, count=1, dtype=keytype).item()
+    code = fromfile(f, count=1, dtype=keytype).item()
 
     if code != 1 and code != 16777216:
         raise ReadError("Invalid code")
@@ -87,7 +88,7 @@ def read_binary_buffer(f):
         postype += swapped
         keytype = swapped + keytype
 
-    version = np.fromfile(f, count=1, dtype=keytype).item()
+    version = fromfile(f, count=1, dtype=keytype).item()
 
     if version < 1 or version > 4:
         raise ReadError("Invalid version")
@@ -109,27 +110,27 @@ def read_binary_buffer(f):
         ftype += "f8"
         postype += "i8"
 
-    field = np.fromfile(f, count=1, dtype=keytype).item()
+    field = fromfile(f, count=1, dtype=keytype).item()
 
     if field != 3:  # =  GmfDimension
         raise ReadError("Invalid dimension code : " + str(field) + " it should be 3")
 
-    np.fromfile(f, count=1, dtype=postype)
+    fromfile(f, count=1, dtype=postype)
 
-    dim = np.fromfile(f, count=1, dtype=keytype).item()
+    dim = fromfile(f, count=1, dtype=keytype).item()
 
     if dim != 2 and dim != 3:
         raise ReadError("Invalid mesh dimension : " + str(dim))
 
     while True:
-        field = np.fromfile(f, count=1, dtype=keytype)
+        field = f.read(4)
 
-        if field.size == 0:
+        if len(field) == 0:
             msg = "End-of-file reached before GmfEnd keyword"
             warn(msg)
             break
 
-        field = field.item()
+        field = np.frombuffer(field, dtype=keytype).item()
         if field not in medit_codes.keys():
             raise ReadError("Unsupported field")
 
@@ -141,15 +142,15 @@ def read_binary_buffer(f):
         if field_code[0] == "GmfReserved":
             continue
 
-        np.fromfile(f, count=1, dtype=postype)
+        fromfile(f, count=1, dtype=postype)
 
         nitems = 1
         if field_code[1] == "i":
-            nitems = np.fromfile(f, count=1, dtype=itype).item()
+            nitems = fromfile(f, count=1, dtype=itype).item()
 
         field_template = field_code[2]
         dtype = np.dtype(_produce_dtype(field_template, dim, itype, ftype))
-        out = np.asarray(np.fromfile(f, count=nitems, dtype=dtype))
+        out = np.asarray(fromfile(f, count=nitems, dtype=dtype))
         if field_code[0] not in meshio_from_medit.keys():
             warn(f"meshio doesn't know {field_code[0]} type. Skipping.")
             continue
@@ -218,7 +219,7 @@ def read_ascii_buffer(f):
             if dtype is None:
                 raise ReadError("Expected `MeshVersionFormatted` before `Vertices`")
             num_verts = int(f.readline())
-            out = np.fromfile(
+            out = fromfile(
                 f, count=num_verts * (dim + 1), dtype=dtype, sep=" "
             ).reshape(num_verts, dim + 1)
             points = out[:, :dim]
@@ -228,7 +229,7 @@ def read_ascii_buffer(f):
             # The first value is the number of elements
             num_cells = int(f.readline())
 
-            out = np.fromfile(
+            out = fromfile(
                 f, count=num_cells * (points_per_cell + 1), dtype=int, sep=" "
             ).reshape(num_cells, points_per_cell + 1)
 
@@ -238,41 +239,41 @@ def read_ascii_buffer(f):
         elif items[0] == "Corners":
             # those are just discarded
             num_corners = int(f.readline())
-            np.fromfile(f, count=num_corners, dtype=dtype, sep=" ")
+            fromfile(f, count=num_corners, dtype=dtype, sep=" ")
         elif items[0] == "Normals":
             # those are just discarded
             num_normals = int(f.readline())
-            np.fromfile(f, count=num_normals * dim, dtype=dtype, sep=" ").reshape(
+            fromfile(f, count=num_normals * dim, dtype=dtype, sep=" ").reshape(
                 num_normals, dim
             )
         elif items[0] == "NormalAtVertices":
             # those are just discarded
             num_normal_at_vertices = int(f.readline())
-            np.fromfile(
+            fromfile(
                 f, count=num_normal_at_vertices * 2, dtype=int, sep=" "
             ).reshape(num_normal_at_vertices, 2)
         elif items[0] == "SubDomainFromMesh":
             # those are just discarded
             num_sub_domain_from_mesh = int(f.readline())
-            np.fromfile(
+            fromfile(
                 f, count=num_sub_domain_from_mesh * 4, dtype=int, sep=" "
             ).reshape(num_sub_domain_from_mesh, 4)
         elif items[0] == "VertexOnGeometricVertex":
             # those are just discarded
             num_vertex_on_geometric_vertex = int(f.readline())
-            np.fromfile(
+            fromfile(
                 f, count=num_vertex_on_geometric_vertex * 2, dtype=int, sep=" "
             ).reshape(num_vertex_on_geometric_vertex, 2)
         elif items[0] == "VertexOnGeometricEdge":
             # those are just discarded
             num_vertex_on_geometric_edge = int(f.readline())
-            np.fromfile(
+            fromfile(
                 f, count=num_vertex_on_geometric_edge * 3, dtype=float, sep=" "
             ).reshape(num_vertex_on_geometric_edge, 3)
         elif items[0] == "EdgeOnGeometricEdge":
             # those are just discarded
             num_edge_on_geometric_edge = int(f.readline())
-            np.fromfile(
+            fromfile(
                 f, count=num_edge_on_geometric_edge * 2, dtype=int, sep=" "
             ).reshape(num_edge_on_geometric_edge, 2)
         elif items[0] == "Identifier" or items[0] == "Geometry":
diff --git a/src/meshio/stl/_stl.py b/src/meshio/stl/_stl.py
index 6bba446..8490faf 100644
--- a/src/meshio/stl/_stl.py
+++ b/src/meshio/stl/_stl.py
@@ -12,7 +12,7 @@ import numpy as np
 from ..__about__ import __version__
 from .._common import warn
 from .._exceptions import ReadError
-from .._files import open_file
+from .._files import fromfile, open_file
 from .._helpers import register_format
 from .._mesh import CellBlock, Mesh
 
@@ -34,7 +34,7 @@ def read(filename):
             return _read_ascii(f)
 
         f.read(80)
-        num_triangles = np.fromfile(f, count=1, dtype="<u4")[0]
+        num_triangles = fromfile(f, count=1, dtype="<u4")[0]
         # for each triangle, one has 3 float32 (facet normal), 9 float32 (facet),
         # and 1 int16 (attribute count), 50 bytes in total
         if 84 + num_triangles * 50 == filesize_bytes:
@@ -164,7 +164,7 @@ def data_from_facets(facets):
 def _read_binary(f, num_triangles: int):
     # for each triangle, one has 3 float32 (facet normal), 9 float32 (facet), and 1
     # int16 (attribute count)
-    out = np.fromfile(
+    out = fromfile(
         f,
         count=num_triangles,
         dtype=np.dtype(
diff --git a/src/meshio/ugrid/_ugrid.py b/src/meshio/ugrid/_ugrid.py
index f28f211..24c7f6a 100644
--- a/src/meshio/ugrid/_ugrid.py
+++ b/src/meshio/ugrid/_ugrid.py
@@ -12,7 +12,7 @@ import numpy as np
 
 from .._common import _pick_first_int_data, warn
 from .._exceptions import ReadError
-from .._files import open_file
+from .._files import fromfile, open_file
 from .._helpers import register_format
 from .._mesh import CellBlock, Mesh
 
@@ -49,15 +49,15 @@ def determine_file_type(filename):
 
 def read(filename):
     file_type = determine_file_type(filename)
-    with open_file(filename) as f:
+    with open_file(filename, "r" if file_type["type"] == "ascii" else "rb") as f:
         mesh = read_buffer(f, file_type)
     return mesh
 
 
 def _read_section(f, file_type, count, dtype):
     if file_type["type"] == "ascii":
-        return np.fromfile(f, count=count, dtype=dtype, sep=" ")
-    return np.fromfile(f, count=count, dtype=dtype)
+        return fromfile(f, count=count, dtype=dtype, sep=" ")
+    return fromfile(f, count=count, dtype=dtype)
 
 
 def read_buffer(f, file_type):
diff --git a/src/meshio/xdmf/main.py b/src/meshio/xdmf/main.py
index 1eaafc3..51f7458 100644
--- a/src/meshio/xdmf/main.py
+++ b/src/meshio/xdmf/main.py
@@ -17,6 +17,7 @@ from .._common import (
     write_xml,
 )
 from .._exceptions import ReadError, WriteError
+from .._files import fromfile, open_file
 from .._helpers import register_format
 from .._mesh import CellBlock, Mesh
 from .common import (
@@ -99,10 +100,10 @@ class XdmfReader:
         elif fmt == "Binary":
             # The file path is given with respect to the XDMF (XML) file.
             dirname = pathlib.Path(self.filename).resolve().parent
-            return np.fromfile(
-                dirname / data_item.text.strip(),
-                dtype=xdmf_to_numpy_type[(data_type, precision)],
-            ).reshape(dims)
+            with open_file(dirname / data_item.text.strip(), "rb") as f:
+                return fromfile(
+                    f, dtype=xdmf_to_numpy_type[(data_type, precision)]
+                ).reshape(dims)
 
         if fmt != "HDF":
             raise ReadError(f"Unknown XDMF Format '{fmt}'.")
diff --git a/src/meshio/xdmf/time_series.py b/src/meshio/xdmf/time_series.py
index 6dc58c4..0b21333 100644
--- a/src/meshio/xdmf/time_series.py
+++ b/src/meshio/xdmf/time_series.py
@@ -15,6 +15,7 @@ from .._common import (
     write_xml,
 )
 from .._exceptions import ReadError, WriteError
+from .._files import fromfile, open_file
 from .._mesh import CellBlock
 from .common import (
     attribute_type,
@@ -205,10 +206,11 @@ class TimeSeriesReader:
             ).reshape(dims)
         elif data_format == "Binary":
             # The file path is given with respect to the XDMF (XML) file.
-            return np.fromfile(
-                self.filename.resolve().parent / data_item.text.strip(),
-                dtype=xdmf_to_numpy_type[(data_type, precision)],
-            ).reshape(dims)
+            dirname = self.filename.resolve().parent
+            with open_file(dirname / data_item.text.strip(), "rb") as f:
+                return fromfile(
+                    f, dtype=xdmf_to_numpy_type[(data_type, precision)]
+                ).reshape(dims)
 
         if data_format != "HDF":
             raise ReadError(f"Unknown XDMF Format '{data_format}'.")
-- 
2.43.0


From 6e22641e7f273f68508ea71341ccea14c80c2e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:48 +0000
Subject: [PATCH 39/90] fix: med reader: fields that cannot be read are not
 taken as missing

---
 src/meshio/med/_med.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/meshio/med/_med.py b/src/meshio/med/_med.py
index e6967a1..6abe517 100644
--- a/src/meshio/med/_med.py
+++ b/src/meshio/med/_med.py
@@ -106,11 +106,9 @@ def _read(f):
         cell_tags = _read_families(fas["ELEME"])
 
     # Read nodal and cell data if they exist
-    try:
+    # (f["CHA"] also raises a KeyError if it cannot be read.)
+    if "CHA" in f:
         fields = f["CHA"]  # champs (fields) in French
-    except KeyError:
-        pass
-    else:
         profiles = f["PROFILS"] if "PROFILS" in f else None
         _read_data(fields, profiles, cell_types, point_data, cell_data, field_data)
 
-- 
2.43.0


From 9c441c9f7871cc252e12433c3bbc936646342587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:42 +0000
Subject: [PATCH 40/90] fix: ply reader: truncated files are not read as
 smaller meshes

---
 src/meshio/ply/_ply.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/meshio/ply/_ply.py b/src/meshio/ply/_ply.py
index d3e5bb9..042374f 100644
--- a/src/meshio/ply/_ply.py
+++ b/src/meshio/ply/_ply.py
@@ -14,7 +14,7 @@ import numpy as np
 from ..__about__ import __version__
 from .._common import warn
 from .._exceptions import ReadError, WriteError
-from .._files import open_file
+from .._files import fromfile, open_file
 from .._helpers import register_format
 from .._mesh import CellBlock, Mesh
 
@@ -237,6 +237,8 @@ def _read_ascii(
                 n = ply_to_numpy_dtype[idx_dtype](data[i])
                 dtype = ply_to_numpy_dtype[value_dtype]
                 idx = dtype(data[i + 1 : i + n + 1])
+                if len(idx) < n:
+                    raise ReadError("Unexpected end of line.")
                 if len(cell_blocks) == 0 or len(cell_blocks[-1][1][-1]) != n:
                     cell_blocks.append((cell_type_from_count(n), [idx]))
                 else:
@@ -287,9 +289,7 @@ def _read_binary(
         (name, endianness + ply_to_numpy_dtype_string[fmt])
         for name, fmt in zip(point_data_names, formats)
     ]
-    point_data = np.frombuffer(
-        f.read(num_verts * np.dtype(dtype).itemsize), dtype=dtype
-    )
+    point_data = fromfile(f, dtype=dtype, count=num_verts)
     verts = np.column_stack([point_data["x"], point_data["y"], point_data["z"]])
     point_data = {
         name: point_data[name]
@@ -359,6 +359,8 @@ def _read_binary_list(buffer, count_dtype, data_dtype, num_cells, endianness):
 
     # Row `i` is given by `buffer[byte_starts_ends[i]: byte_starts_ends[i+1]]`.
     byte_starts_ends = np.fromiter(parse_ragged(0, num_cells), np.intp, num_cells + 1)
+    if byte_starts_ends[-1] > len(buffer):
+        raise ReadError("Unexpected end of file.")
 
     # Next, find where the row length changes and list the (start, end) row ids
     # of each homogeneous block into `block_bounds`.
-- 
2.43.0


From 4d1fb91f5f55461a1ddf86bcfd8e3639d92a2f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:42 +0000
Subject: [PATCH 41/90] fix: stl reader: truncated binary files are not read as
 empty ASCII files

---
 src/meshio/stl/_stl.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/meshio/stl/_stl.py b/src/meshio/stl/_stl.py
index 8490faf..e37797e 100644
--- a/src/meshio/stl/_stl.py
+++ b/src/meshio/stl/_stl.py
@@ -30,19 +30,18 @@ def read(filename):
         # num_triangles and see if it matches the file size
         # (https://stackoverflow.com/a/7394842/353337).
         filesize_bytes = os.path.getsize(filename)
-        if filesize_bytes < 80:
-            return _read_ascii(f)
-
-        f.read(80)
-        num_triangles = fromfile(f, count=1, dtype="<u4")[0]
-        # for each triangle, one has 3 float32 (facet normal), 9 float32 (facet),
-        # and 1 int16 (attribute count), 50 bytes in total
-        if 84 + num_triangles * 50 == filesize_bytes:
-            return _read_binary(f, num_triangles)
+        if filesize_bytes >= 84:
+            f.read(80)
+            num_triangles = fromfile(f, count=1, dtype="<u4")[0]
+            # for each triangle, one has 3 float32 (facet normal), 9 float32 (facet),
+            # and 1 int16 (attribute count), 50 bytes in total
+            if 84 + num_triangles * 50 == filesize_bytes:
+                return _read_binary(f, num_triangles)
 
         # rewind and skip header
         f.seek(0)
-        f.readline()
+        if not f.readline().strip().lower().startswith(b"solid"):
+            raise ReadError("Neither ASCII nor (complete) binary STL file")
         return _read_ascii(f)
 
 
-- 
2.43.0


From 36bfee457d08a7ae13f385f480667b9e18954e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:42 +0000
Subject: [PATCH 42/90] fix: vtk reader: truncated arrays are not accepted

---
 src/meshio/vtk/_vtk_42.py | 34 +++++++++++++++++-----------------
 src/meshio/vtk/_vtk_51.py | 34 +++++++++++++++++-----------------
 2 files changed, 34 insertions(+), 34 deletions(-)

diff --git a/src/meshio/vtk/_vtk_42.py b/src/meshio/vtk/_vtk_42.py
index 6acc658..321df39 100644
--- a/src/meshio/vtk/_vtk_42.py
+++ b/src/meshio/vtk/_vtk_42.py
@@ -9,7 +9,7 @@ import numpy as np
 from ..__about__ import __version__
 from .._common import warn
 from .._exceptions import ReadError, WriteError
-from .._files import open_file
+from .._files import fromfile, open_file
 from .._mesh import Mesh
 from .._vtk_common import (
     Info,
@@ -207,7 +207,7 @@ def _read_section(f, info):
 
     elif info.section == "LOOKUP_TABLE":
         info.num_items = int(info.split[2])
-        np.fromfile(f, count=info.num_items * 4, sep=" ", dtype=float)
+        fromfile(f, count=info.num_items * 4, sep=" ", dtype=float)
         # rgba = data.reshape((info.num_items, 4))
 
     elif info.section == "COLOR_SCALARS":
@@ -217,7 +217,7 @@ def _read_section(f, info):
         dtype = np.ubyte
         if info.is_ascii:
             dtype = float
-        np.fromfile(f, count=num_items * nValues, dtype=dtype)
+        fromfile(f, count=num_items * nValues, dtype=dtype)
 
 
 def _read_subsection(f, info):
@@ -352,12 +352,12 @@ def _generate_points(axis):
 def _read_coords(f, data_type, is_ascii, num_points):
     dtype = np.dtype(vtk_to_numpy_dtype_name[data_type])
     if is_ascii:
-        coords = np.fromfile(f, count=num_points, sep=" ", dtype=dtype)
+        coords = fromfile(f, count=num_points, sep=" ", dtype=dtype)
     else:
         # Binary data is big endian, see
         # <https://vtk.org/Wiki/VTK/Writing_VTK_files_using_python#.22legacy.22>.
         dtype = dtype.newbyteorder(">")
-        coords = np.fromfile(f, count=num_points, dtype=dtype)
+        coords = fromfile(f, count=num_points, dtype=dtype)
         line = f.readline().decode()
         if line != "\n":
             raise ReadError()
@@ -367,12 +367,12 @@ def _read_coords(f, data_type, is_ascii, num_points):
 def _read_points(f, data_type, is_ascii, num_points):
     dtype = np.dtype(vtk_to_numpy_dtype_name[data_type])
     if is_ascii:
-        points = np.fromfile(f, count=num_points * 3, sep=" ", dtype=dtype)
+        points = fromfile(f, count=num_points * 3, sep=" ", dtype=dtype)
     else:
         # Binary data is big endian, see
         # <https://vtk.org/Wiki/VTK/Writing_VTK_files_using_python#.22legacy.22>.
         dtype = dtype.newbyteorder(">")
-        points = np.fromfile(f, count=num_points * 3, dtype=dtype)
+        points = fromfile(f, count=num_points * 3, dtype=dtype)
         line = f.readline().decode()
         if line != "\n":
             raise ReadError()
@@ -381,10 +381,10 @@ def _read_points(f, data_type, is_ascii, num_points):
 
 def _read_int_data(f, is_ascii, num_items, dtype=np.dtype("int32")):
     if is_ascii:
-        c = np.fromfile(f, count=num_items, sep=" ", dtype=dtype)
+        c = fromfile(f, count=num_items, sep=" ", dtype=dtype)
     else:
         dtype = dtype.newbyteorder(">")
-        c = np.fromfile(f, count=num_items, dtype=dtype)
+        c = fromfile(f, count=num_items, dtype=dtype)
         line = f.readline().decode()
         if line != "\n":
             raise ReadError()
@@ -393,10 +393,10 @@ def _read_int_data(f, is_ascii, num_items, dtype=np.dtype("int32")):
 
 def _read_cell_types(f, is_ascii, num_items):
     if is_ascii:
-        ct = np.fromfile(f, count=int(num_items), sep=" ", dtype=int)
+        ct = fromfile(f, count=int(num_items), sep=" ", dtype=int)
     else:
         # binary
-        ct = np.fromfile(f, count=int(num_items), dtype=">i4")
+        ct = fromfile(f, count=int(num_items), dtype=">i4")
         line = f.readline().decode()
         # Sometimes, there's no newline at the end
         if line.strip() != "":
@@ -423,12 +423,12 @@ def _read_scalar_field(f, num_data, split, is_ascii):
         raise ReadError()
 
     if is_ascii:
-        data = np.fromfile(f, count=num_data * num_comp, sep=" ", dtype=dtype)
+        data = fromfile(f, count=num_data * num_comp, sep=" ", dtype=dtype)
     else:
         # Binary data is big endian, see
         # <https://vtk.org/Wiki/VTK/Writing_VTK_files_using_python#.22legacy.22>.
         dtype = dtype.newbyteorder(">")
-        data = np.fromfile(f, count=num_data * num_comp, dtype=dtype)
+        data = fromfile(f, count=num_data * num_comp, dtype=dtype)
         line = f.readline().decode()
         if line != "\n":
             raise ReadError()
@@ -447,12 +447,12 @@ def _read_field(f, num_data, split, shape, is_ascii):
     k = reduce((lambda x, y: x * y), shape)
 
     if is_ascii:
-        data = np.fromfile(f, count=k * num_data, sep=" ", dtype=dtype)
+        data = fromfile(f, count=k * num_data, sep=" ", dtype=dtype)
     else:
         # Binary data is big endian, see
         # <https://vtk.org/Wiki/VTK/Writing_VTK_files_using_python#.22legacy.22>.
         dtype = dtype.newbyteorder(">")
-        data = np.fromfile(f, count=k * num_data, dtype=dtype)
+        data = fromfile(f, count=k * num_data, dtype=dtype)
         line = f.readline().decode()
         if line != "\n":
             raise ReadError()
@@ -476,12 +476,12 @@ def _read_fields(f, num_fields, is_ascii):
         dtype = np.dtype(vtk_to_numpy_dtype_name[data_type.lower()])
 
         if is_ascii:
-            dat = np.fromfile(f, count=shape0 * shape1, sep=" ", dtype=dtype)
+            dat = fromfile(f, count=shape0 * shape1, sep=" ", dtype=dtype)
         else:
             # Binary data is big endian, see
             # <https://vtk.org/Wiki/VTK/Writing_VTK_files_using_python#.22legacy.22>.
             dtype = dtype.newbyteorder(">")
-            dat = np.fromfile(f, count=shape0 * shape1, dtype=dtype)
+            dat = fromfile(f, count=shape0 * shape1, dtype=dtype)
             line = f.readline().decode()
             if line != "\n":
                 raise ReadError()
diff --git a/src/meshio/vtk/_vtk_51.py b/src/meshio/vtk/_vtk_51.py
index 31188e1..0233ce1 100644
--- a/src/meshio/vtk/_vtk_51.py
+++ b/src/meshio/vtk/_vtk_51.py
@@ -5,7 +5,7 @@ import numpy as np
 from ..__about__ import __version__
 from .._common import info, join_strings, replace_space, warn
 from .._exceptions import ReadError, WriteError
-from .._files import open_file
+from .._files import fromfile, open_file
 from .._mesh import Mesh
 from .._vtk_common import (
     Info,
@@ -180,7 +180,7 @@ def _read_section(f, info):
 
     elif info.section == "LOOKUP_TABLE":
         info.num_items = int(info.split[2])
-        np.fromfile(f, count=info.num_items * 4, sep=" ", dtype=float)
+        fromfile(f, count=info.num_items * 4, sep=" ", dtype=float)
         # rgba = data.reshape((info.num_items, 4))
 
     elif info.section == "COLOR_SCALARS":
@@ -190,7 +190,7 @@ def _read_section(f, info):
         dtype = np.ubyte
         if info.is_ascii:
             dtype = float
-        np.fromfile(f, count=num_items * nValues, dtype=dtype)
+        fromfile(f, count=num_items * nValues, dtype=dtype)
 
 
 def _read_subsection(f, info):
@@ -324,12 +324,12 @@ def _generate_points(axis):
 def _read_coords(f, data_type, is_ascii, num_points):
     dtype = np.dtype(vtk_to_numpy_dtype_name[data_type])
     if is_ascii:
-        coords = np.fromfile(f, count=num_points, sep=" ", dtype=dtype)
+        coords = fromfile(f, count=num_points, sep=" ", dtype=dtype)
     else:
         # Binary data is big endian, see
         # <https://vtk.org/Wiki/VTK/Writing_VTK_files_using_python#.22legacy.22>.
         dtype = dtype.newbyteorder(">")
-        coords = np.fromfile(f, count=num_points, dtype=dtype)
+        coords = fromfile(f, count=num_points, dtype=dtype)
         line = f.readline().decode()
         if line != "\n":
             raise ReadError()
@@ -339,12 +339,12 @@ def _read_coords(f, data_type, is_ascii, num_points):
 def _read_points(f, data_type, is_ascii, num_points):
     dtype = np.dtype(vtk_to_numpy_dtype_name[data_type])
     if is_ascii:
-        points = np.fromfile(f, count=num_points * 3, sep=" ", dtype=dtype)
+        points = fromfile(f, count=num_points * 3, sep=" ", dtype=dtype)
     else:
         # Binary data is big endian, see
         # <https://vtk.org/Wiki/VTK/Writing_VTK_files_using_python#.22legacy.22>.
         dtype = dtype.newbyteorder(">")
-        points = np.fromfile(f, count=num_points * 3, dtype=dtype)
+        points = fromfile(f, count=num_points * 3, dtype=dtype)
         line = f.readline().decode()
         if line != "\n":
             raise ReadError()
@@ -353,10 +353,10 @@ def _read_points(f, data_type, is_ascii, num_points):
 
 def _read_int_data(f, is_ascii, num_items, dtype):
     if is_ascii:
-        c = np.fromfile(f, count=num_items, sep=" ", dtype=dtype)
+        c = fromfile(f, count=num_items, sep=" ", dtype=dtype)
     else:
         dtype = dtype.newbyteorder(">")
-        c = np.fromfile(f, count=num_items, dtype=dtype)
+        c = fromfile(f, count=num_items, dtype=dtype)
         line = f.readline().decode()
         if line != "\n":
             raise ReadError("Expected newline")
@@ -365,10 +365,10 @@ def _read_int_data(f, is_ascii, num_items, dtype):
 
 def _read_cell_types(f, is_ascii, num_items):
     if is_ascii:
-        ct = np.fromfile(f, count=int(num_items), sep=" ", dtype=int)
+        ct = fromfile(f, count=int(num_items), sep=" ", dtype=int)
     else:
         # binary
-        ct = np.fromfile(f, count=int(num_items), dtype=">i4")
+        ct = fromfile(f, count=int(num_items), dtype=">i4")
         line = f.readline().decode()
         # Sometimes, there's no newline at the end
         if line.strip() != "":
@@ -395,12 +395,12 @@ def _read_scalar_field(f, num_data, split, is_ascii):
         raise ReadError()
 
     if is_ascii:
-        data = np.fromfile(f, count=num_data * num_comp, sep=" ", dtype=dtype)
+        data = fromfile(f, count=num_data * num_comp, sep=" ", dtype=dtype)
     else:
         # Binary data is big endian, see
         # <https://vtk.org/Wiki/VTK/Writing_VTK_files_using_python#.22legacy.22>.
         dtype = dtype.newbyteorder(">")
-        data = np.fromfile(f, count=num_data * num_comp, dtype=dtype)
+        data = fromfile(f, count=num_data * num_comp, dtype=dtype)
         line = f.readline().decode()
         if line != "\n":
             raise ReadError()
@@ -419,12 +419,12 @@ def _read_field(f, num_data, split, shape, is_ascii):
     k = reduce((lambda x, y: x * y), shape)
 
     if is_ascii:
-        data = np.fromfile(f, count=k * num_data, sep=" ", dtype=dtype)
+        data = fromfile(f, count=k * num_data, sep=" ", dtype=dtype)
     else:
         # Binary data is big endian, see
         # <https://vtk.org/Wiki/VTK/Writing_VTK_files_using_python#.22legacy.22>.
         dtype = dtype.newbyteorder(">")
-        data = np.fromfile(f, count=k * num_data, dtype=dtype)
+        data = fromfile(f, count=k * num_data, dtype=dtype)
         line = f.readline().decode()
         if line != "\n":
             raise ReadError()
@@ -448,12 +448,12 @@ def _read_fields(f, num_fields, is_ascii):
         dtype = np.dtype(vtk_to_numpy_dtype_name[data_type.lower()])
 
         if is_ascii:
-            dat = np.fromfile(f, count=shape0 * shape1, sep=" ", dtype=dtype)
+            dat = fromfile(f, count=shape0 * shape1, sep=" ", dtype=dtype)
         else:
             # Binary data is big endian, see
             # <https://vtk.org/Wiki/VTK/Writing_VTK_files_using_python#.22legacy.22>.
             dtype = dtype.newbyteorder(">")
-            dat = np.fromfile(f, count=shape0 * shape1, dtype=dtype)
+            dat = fromfile(f, count=shape0 * shape1, dtype=dtype)
             line = f.readline().decode()
             if line != "\n":
                 raise ReadError()
-- 
2.43.0


From ae22d47e22e0386e8cec77ea24395a861665cec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:42 +0000
Subject: [PATCH 43/90] fix: su2 reader: truncated element sections are not
 accepted

---
 src/meshio/su2/_su2.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/meshio/su2/_su2.py b/src/meshio/su2/_su2.py
index b59c504..b7e296a 100644
--- a/src/meshio/su2/_su2.py
+++ b/src/meshio/su2/_su2.py
@@ -134,7 +134,10 @@ def read_buffer(f):
             # reset generator
             gen = chain([first_line_str], gen)
 
-            cell_array = " ".join([line.rstrip("\n") for line in gen])
+            lines = [line.rstrip("\n") for line in gen]
+            if len(lines) < num_elems:
+                raise ReadError(f"Expected {num_elems} lines in {name} field")
+            cell_array = " ".join(lines)
             cell_array = np.fromiter(cell_array.split(), dtype=itype)
 
             cells_, _ = _translate_cells(cell_array, has_extra_column)
-- 
2.43.0


From 1b2076c98f9020c093f6d9bb6bda02dc30c320e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:42 +0000
Subject: [PATCH 44/90] fix: netgen reader: truncated point sections are not
 accepted

---
 src/meshio/netgen/_netgen.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/meshio/netgen/_netgen.py b/src/meshio/netgen/_netgen.py
index a9b933a..9f0be01 100644
--- a/src/meshio/netgen/_netgen.py
+++ b/src/meshio/netgen/_netgen.py
@@ -7,6 +7,7 @@ import numpy as np
 
 from ..__about__ import __version__
 from .._common import warn
+from .._exceptions import ReadError
 from .._files import open_file
 from .._helpers import register_format
 from .._mesh import Mesh
@@ -265,6 +266,8 @@ def read_buffer(f):
             num_points = int(f.readline())
             if num_points > 0:
                 points = np.loadtxt(f, max_rows=num_points, ndmin=2)
+                if len(points) < num_points:
+                    raise ReadError(f"Expected {num_points} points.")
                 if dimension != 3:
                     points = points[:, :dimension]
 
-- 
2.43.0


From 6b91bd6b270b4246bf451147a1eacd99855920e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:42 +0000
Subject: [PATCH 45/90] fix: medit reader: binary files without vertices are
 not accepted

---
 src/meshio/medit/_medit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/meshio/medit/_medit.py b/src/meshio/medit/_medit.py
index 1664446..4500375 100644
--- a/src/meshio/medit/_medit.py
+++ b/src/meshio/medit/_medit.py
@@ -166,6 +166,8 @@ def read_binary_buffer(f):
             cells.append((meshio_type, out_view[:, :ncols] - 1))
             cell_data["medit:ref"].append(out_view[:, -1])
 
+    if points is None:
+        raise ReadError("Expected `GmfVertices`")
     return Mesh(points, cells, point_data=point_data, cell_data=cell_data)
 
 
-- 
2.43.0


From bbcf118d55346bacc84f04f298c51bc5fbcddd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:42 +0000
Subject: [PATCH 46/90] fix: avsucd reader: truncated data lines are not
 accepted

---
 src/meshio/avsucd/_avsucd.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/meshio/avsucd/_avsucd.py b/src/meshio/avsucd/_avsucd.py
index 3d13d24..1136f7c 100644
--- a/src/meshio/avsucd/_avsucd.py
+++ b/src/meshio/avsucd/_avsucd.py
@@ -7,6 +7,7 @@ import numpy as np
 
 from ..__about__ import __version__ as version
 from .._common import _pick_first_int_data, warn
+from .._exceptions import ReadError
 from .._files import open_file
 from .._helpers import register_format
 from .._mesh import CellBlock, Mesh
@@ -131,6 +132,8 @@ def _read_data(f, num_entities, entity_ids):
 
     for _ in range(num_entities):
         line = f.readline().strip().split()
+        if len(line) < 1 + sum(data_size):
+            raise ReadError("Unexpected end of line.")
         eid = entity_ids[int(line[0])]
         j = 0
         for i, dsize in enumerate(data_size):
-- 
2.43.0


From 0025ac3327bd195e454787344998820b225bc0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:42 +0000
Subject: [PATCH 47/90] fix: tecplot reader: truncated element lines are not
 accepted

---
 src/meshio/tecplot/_tecplot.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/meshio/tecplot/_tecplot.py b/src/meshio/tecplot/_tecplot.py
index 394be21..ae0b783 100644
--- a/src/meshio/tecplot/_tecplot.py
+++ b/src/meshio/tecplot/_tecplot.py
@@ -7,7 +7,7 @@ I/O for Tecplot ASCII data format, cf.
 import numpy as np
 
 from ..__about__ import __version__ as version
-from .._common import warn
+from .._common import num_nodes_per_cell, warn
 from .._exceptions import ReadError, WriteError
 from .._files import open_file
 from .._helpers import register_format
@@ -218,7 +218,10 @@ def read_buffer(f):
     points = np.column_stack((point_data.pop(x), point_data.pop(y)))
     if z:
         points = np.column_stack((points, point_data.pop(z)))
-    cells = [(tecplot_to_meshio_type[zone_type], cells - 1)]
+    cell_type = tecplot_to_meshio_type[zone_type]
+    if cells.shape[1] < num_nodes_per_cell[cell_type]:
+        raise ReadError("Unexpected end of line.")
+    cells = [(cell_type, cells - 1)]
 
     return Mesh(points, cells, point_data, cell_data)
 
-- 
2.43.0


From 300129ffd2de012709e6a01c74cede6ea2fb7a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:42 +0000
Subject: [PATCH 48/90] fix: gmsh22 reader: truncated element lines are not
 accepted

---
 src/meshio/gmsh/_gmsh22.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/meshio/gmsh/_gmsh22.py b/src/meshio/gmsh/_gmsh22.py
index 5e611ca..dd6ac51 100644
--- a/src/meshio/gmsh/_gmsh22.py
+++ b/src/meshio/gmsh/_gmsh22.py
@@ -175,6 +175,8 @@ def _read_cells_ascii(f, cells, cell_tags, total_num_cells: int) -> None:
         data = [int(k) for k in filter(None, line.split())]
         t = _gmsh_to_meshio_type[data[1]]
         num_nodes_per_elem = num_nodes_per_cell[t]
+        if len(data) < 3 + data[2] + num_nodes_per_elem:
+            raise ReadError("Unexpected end of line.")
 
         if len(cells) == 0 or t != cells[-1][0]:
             cells.append((t, []))
-- 
2.43.0


From db88ef00a7eed5534a2bacf61fa19b27b68a0b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:27 +0000
Subject: [PATCH 49/90] fix: in-place commands write a file back in the format
 it was read as

.msh belongs to both ANSYS and Gmsh; ascii, binary and compress rewrote a Gmsh
file as an ANSYS one, dropping all its data, and reported success.
---
 src/meshio/_cli/_ascii.py      | 12 +++---------
 src/meshio/_cli/_binary.py     | 12 +++---------
 src/meshio/_cli/_compress.py   | 12 +++---------
 src/meshio/_cli/_decompress.py | 12 +++---------
 src/meshio/_helpers.py         |  7 ++++++-
 5 files changed, 18 insertions(+), 37 deletions(-)

diff --git a/src/meshio/_cli/_ascii.py b/src/meshio/_cli/_ascii.py
index 45aff5a..a893b7a 100644
--- a/src/meshio/_cli/_ascii.py
+++ b/src/meshio/_cli/_ascii.py
@@ -3,7 +3,7 @@ import pathlib
 
 from .. import ansys, flac3d, gmsh, mdpa, ply, stl, vtk, vtu, xdmf
 from .._common import error
-from .._helpers import _filetypes_from_path, read, reader_map
+from .._helpers import _read_file_and_format, reader_map
 
 
 def add_args(parser):
@@ -20,16 +20,10 @@ def add_args(parser):
 
 
 def ascii(args):
-    if args.input_format:
-        fmts = [args.input_format]
-    else:
-        fmts = _filetypes_from_path(pathlib.Path(args.infile))
-    # pick the first
-    fmt = fmts[0]
-
     size = os.stat(args.infile).st_size
     print(f"File size before: {size / 1024 ** 2:.2f} MB")
-    mesh = read(args.infile, file_format=args.input_format)
+    # write back in the format the file turned out to have
+    mesh, fmt = _read_file_and_format(pathlib.Path(args.infile), args.input_format)
 
     # # Some converters (like VTK) require `points` to be contiguous.
     # mesh.points = np.ascontiguousarray(mesh.points)
diff --git a/src/meshio/_cli/_binary.py b/src/meshio/_cli/_binary.py
index ccf0635..3c96295 100644
--- a/src/meshio/_cli/_binary.py
+++ b/src/meshio/_cli/_binary.py
@@ -2,7 +2,7 @@ import os
 import pathlib
 
 from .. import ansys, flac3d, gmsh, mdpa, ply, stl, vtk, vtu, xdmf
-from .._helpers import _filetypes_from_path, read, reader_map
+from .._helpers import _read_file_and_format, reader_map
 
 
 def add_args(parser):
@@ -19,16 +19,10 @@ def add_args(parser):
 
 
 def binary(args):
-    if args.input_format:
-        fmts = [args.input_format]
-    else:
-        fmts = _filetypes_from_path(pathlib.Path(args.infile))
-    # pick the first
-    fmt = fmts[0]
-
     size = os.stat(args.infile).st_size
     print(f"File size before: {size / 1024 ** 2:.2f} MB")
-    mesh = read(args.infile, file_format=args.input_format)
+    # write back in the format the file turned out to have
+    mesh, fmt = _read_file_and_format(pathlib.Path(args.infile), args.input_format)
 
     # # Some converters (like VTK) require `points` to be contiguous.
     # mesh.points = np.ascontiguousarray(mesh.points)
diff --git a/src/meshio/_cli/_compress.py b/src/meshio/_cli/_compress.py
index 9103a0b..fe3ded6 100644
--- a/src/meshio/_cli/_compress.py
+++ b/src/meshio/_cli/_compress.py
@@ -3,7 +3,7 @@ import pathlib
 
 from .. import ansys, cgns, gmsh, h5m, mdpa, ply, stl, vtk, vtu, xdmf
 from .._common import error
-from .._helpers import _filetypes_from_path, read, reader_map
+from .._helpers import _read_file_and_format, reader_map
 
 
 def add_args(parser):
@@ -26,16 +26,10 @@ def add_args(parser):
 
 
 def compress(args):
-    if args.input_format:
-        fmts = [args.input_format]
-    else:
-        fmts = _filetypes_from_path(pathlib.Path(args.infile))
-    # pick the first
-    fmt = fmts[0]
-
     size = os.stat(args.infile).st_size
     print(f"File size before: {size / 1024 ** 2:.2f} MB")
-    mesh = read(args.infile, file_format=args.input_format)
+    # write back in the format the file turned out to have
+    mesh, fmt = _read_file_and_format(pathlib.Path(args.infile), args.input_format)
 
     # # Some converters (like VTK) require `points` to be contiguous.
     # mesh.points = np.ascontiguousarray(mesh.points)
diff --git a/src/meshio/_cli/_decompress.py b/src/meshio/_cli/_decompress.py
index 3c67dda..875c32e 100644
--- a/src/meshio/_cli/_decompress.py
+++ b/src/meshio/_cli/_decompress.py
@@ -3,7 +3,7 @@ import pathlib
 
 from .. import cgns, h5m, vtu, xdmf
 from .._common import error
-from .._helpers import _filetypes_from_path, read, reader_map
+from .._helpers import _read_file_and_format, reader_map
 
 
 def add_args(parser):
@@ -19,16 +19,10 @@ def add_args(parser):
 
 
 def decompress(args):
-    if args.input_format:
-        fmts = [args.input_format]
-    else:
-        fmts = _filetypes_from_path(pathlib.Path(args.infile))
-    # pick the first
-    fmt = fmts[0]
-
     size = os.stat(args.infile).st_size
     print(f"File size before: {size / 1024 ** 2:.2f} MB")
-    mesh = read(args.infile, file_format=args.input_format)
+    # write back in the format the file turned out to have
+    mesh, fmt = _read_file_and_format(pathlib.Path(args.infile), args.input_format)
 
     # # Some converters (like VTK) require `points` to be contiguous.
     # mesh.points = np.ascontiguousarray(mesh.points)
diff --git a/src/meshio/_helpers.py b/src/meshio/_helpers.py
index 6cc7dac..7824a0d 100644
--- a/src/meshio/_helpers.py
+++ b/src/meshio/_helpers.py
@@ -86,6 +86,11 @@ def _read_buffer(filename, file_format: str | None):
 
 
 def _read_file(path: Path, file_format: str | None):
+    return _read_file_and_format(path, file_format)[0]
+
+
+def _read_file_and_format(path: Path, file_format: str | None):
+    """Returns the mesh and the name of the format it was read as."""
     if not path.exists():
         raise ReadError(f"File {path} not found.")
 
@@ -100,7 +105,7 @@ def _read_file(path: Path, file_format: str | None):
             raise ReadError(f"Unknown file format '{file_format}' of '{path}'.")
 
         try:
-            return reader_map[file_format](str(path))
+            return reader_map[file_format](str(path)), file_format
         except ReadError as e:
             print(e)
 
-- 
2.43.0


From 56c3ef6c7854a563bf4b06e3684d3a405c7a9673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:30 +0000
Subject: [PATCH 50/90] fix: convert --int-data-to-sets failed on every mesh
 with data

---
 src/meshio/_cli/_convert.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/meshio/_cli/_convert.py b/src/meshio/_cli/_convert.py
index 1a2edd3..7fa01c7 100644
--- a/src/meshio/_cli/_convert.py
+++ b/src/meshio/_cli/_convert.py
@@ -60,10 +60,13 @@ def convert(args):
         mesh.cell_sets_to_data()
 
     if args.int_data_to_sets:
-        for key in mesh.point_data:
-            mesh.point_data_to_sets(key)
-        for key in mesh.cell_data:
-            mesh.cell_data_to_sets(key)
+        # the conversion removes the data from the mesh; float data stays as it is
+        for key, data in list(mesh.point_data.items()):
+            if data.dtype.kind in "iu":
+                mesh.point_data_to_sets(key)
+        for key, data in list(mesh.cell_data.items()):
+            if all(d.dtype.kind in "iu" for d in data):
+                mesh.cell_data_to_sets(key)
 
     # write it out
     kwargs = {"file_format": args.output_format}
-- 
2.43.0


From 8785889afdd7eefafaac7a524945b24045af390b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:36 +0000
Subject: [PATCH 51/90] fix: point_data_to_sets named the sets of all data
 alike, so that they replaced each other

---
 src/meshio/_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/_mesh.py b/src/meshio/_mesh.py
index 741831d..ccd527e 100644
--- a/src/meshio/_mesh.py
+++ b/src/meshio/_mesh.py
@@ -410,7 +410,7 @@ class Mesh:
         names = list(dict.fromkeys(names))
         if len(names) != len(tags):
             # alternative names
-            names = [f"set-key-{tag}" for tag in tags]
+            names = [f"set-{key}-{tag}" for tag in tags]
 
         # TODO there's probably a better way besides np.where, something from
         # np.unique or np.sort
-- 
2.43.0


From 512e363db4316d1a6d655a672d4873f40be85c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:40 +0000
Subject: [PATCH 52/90] fix: convert --int-data-to-sets with cell data but no
 cells

---
 src/meshio/_cli/_convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/_cli/_convert.py b/src/meshio/_cli/_convert.py
index 7fa01c7..1869205 100644
--- a/src/meshio/_cli/_convert.py
+++ b/src/meshio/_cli/_convert.py
@@ -65,7 +65,7 @@ def convert(args):
             if data.dtype.kind in "iu":
                 mesh.point_data_to_sets(key)
         for key, data in list(mesh.cell_data.items()):
-            if all(d.dtype.kind in "iu" for d in data):
+            if data and all(d.dtype.kind in "iu" for d in data):
                 mesh.cell_data_to_sets(key)
 
     # write it out
-- 
2.43.0


From 1cc9ed495e12dc56530d08c33796af0e4df814c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:17 +0000
Subject: [PATCH 53/90] fix: ASCII PLY files with point data whose names are
 not identifiers could not be read

---
 src/meshio/ply/_ply.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/meshio/ply/_ply.py b/src/meshio/ply/_ply.py
index 042374f..e80b467 100644
--- a/src/meshio/ply/_ply.py
+++ b/src/meshio/ply/_ply.py
@@ -181,32 +181,28 @@ def _read_ascii(
     assert len(cell_data_names) == len(cell_dtypes)
 
     # assert that all formats are the same
-    # Now read the data
+    # Now read the data. (Columns go by number: genfromtxt() changes names.)
     dtype = np.dtype(
-        [
-            (name, ply_to_numpy_dtype[fmt])
-            for name, fmt in zip(point_data_names, point_data_formats)
-        ]
+        [(f"f{i}", ply_to_numpy_dtype[fmt]) for i, fmt in enumerate(point_data_formats)]
     )
-    pd = np.genfromtxt(f, max_rows=num_verts, dtype=dtype)
+    pd = np.atleast_1d(np.genfromtxt(f, max_rows=num_verts, dtype=dtype))
 
     # split off coordinate data and additional point data
     verts = []
     k = 0
     if point_data_names[0] == "x":
-        verts.append(pd["x"])
+        verts.append(pd["f0"])
         k += 1
     if point_data_names[1] == "y":
-        verts.append(pd["y"])
+        verts.append(pd["f1"])
         k += 1
     if point_data_names[2] == "z":
-        verts.append(pd["z"])
+        verts.append(pd["f2"])
         k += 1
     verts = np.column_stack(verts)
 
     point_data = {
-        point_data_names[i]: pd[point_data_names[i]]
-        for i in range(k, len(point_data_names))
+        point_data_names[i]: pd[f"f{i}"] for i in range(k, len(point_data_names))
     }
     cell_data = {}
 
-- 
2.43.0


From 241aff4e0d83d6cd5a62d7c38f7b0f23b0be5b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:24 +0000
Subject: [PATCH 54/90] fix: exodus: refuse to write to a buffer instead of
 writing a file next to it

---
 src/meshio/exodus/_exodus.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/meshio/exodus/_exodus.py b/src/meshio/exodus/_exodus.py
index 60fce58..00df481 100644
--- a/src/meshio/exodus/_exodus.py
+++ b/src/meshio/exodus/_exodus.py
@@ -13,7 +13,8 @@ import numpy as np
 
 from ..__about__ import __version__
 from .._common import warn
-from .._exceptions import ReadError
+from .._exceptions import ReadError, WriteError
+from .._files import is_buffer
 from .._helpers import register_format
 from .._mesh import Mesh
 
@@ -262,6 +263,10 @@ numpy_to_exodus_dtype = {
 def write(filename, mesh):
     import netCDF4
 
+    # netCDF4 would create a file with the name str(filename)
+    if is_buffer(filename, "w"):
+        raise WriteError("Exodus files cannot be written to a buffer")
+
     with netCDF4.Dataset(filename, "w") as rootgrp:
         # set global data
         now = datetime.datetime.now().isoformat()
-- 
2.43.0


From 6254c0415943919467a4a6d4fadc0a9c0c37abec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:24 +0000
Subject: [PATCH 55/90] fix: obj: refuse binary streams instead of reading an
 empty mesh

---
 src/meshio/obj/_obj.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/meshio/obj/_obj.py b/src/meshio/obj/_obj.py
index d520818..271be7e 100644
--- a/src/meshio/obj/_obj.py
+++ b/src/meshio/obj/_obj.py
@@ -8,7 +8,7 @@ import datetime
 import numpy as np
 
 from ..__about__ import __version__
-from .._exceptions import WriteError
+from .._exceptions import ReadError, WriteError
 from .._files import open_file
 from .._helpers import register_format
 from .._mesh import CellBlock, Mesh
@@ -34,6 +34,9 @@ def read_buffer(f):
             # EOF
             break
 
+        if isinstance(line, bytes):
+            raise ReadError("OBJ files must be read from a text stream")
+
         strip = line.strip()
 
         if len(strip) == 0 or strip[0] == "#":
-- 
2.43.0


From 03a0bf1eed025bdca3c7ed8fdf5d6c0423f31cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:35 +0000
Subject: [PATCH 56/90] fix: flac3d: refuse binary streams for ASCII files
 instead of reading an empty mesh

---
 src/meshio/flac3d/_flac3d.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/meshio/flac3d/_flac3d.py b/src/meshio/flac3d/_flac3d.py
index 9148163..0b1dee8 100644
--- a/src/meshio/flac3d/_flac3d.py
+++ b/src/meshio/flac3d/_flac3d.py
@@ -167,6 +167,9 @@ def read_buffer(f, binary):
             if not line:
                 break
 
+            if isinstance(line, bytes):
+                raise ReadError("ASCII FLAC3D files must be read from a text stream")
+
             if line.strip() == "":
                 continue
 
-- 
2.43.0


From 95a9d27d40db07d31eab22c765c0ba5a8b72fb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:35 +0000
Subject: [PATCH 57/90] fix: vtk51 wrote VTK 4.2 files

---
 src/meshio/vtk/_main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/vtk/_main.py b/src/meshio/vtk/_main.py
index 1e8e717..0dad2d2 100644
--- a/src/meshio/vtk/_main.py
+++ b/src/meshio/vtk/_main.py
@@ -40,7 +40,7 @@ register_format(
     read,
     {
         "vtk42": _vtk_42.write,
-        "vtk51": _vtk_42.write,
+        "vtk51": _vtk_51.write,
         "vtk": _vtk_51.write,
     },
 )
-- 
2.43.0


From 9c2f8b0a561ecfd4403adaf8ecb473bcdab3bb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:35 +0000
Subject: [PATCH 58/90] fix: deregister_format left names which were registered
 twice for an extension

---
 src/meshio/_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/_helpers.py b/src/meshio/_helpers.py
index 7824a0d..8265c62 100644
--- a/src/meshio/_helpers.py
+++ b/src/meshio/_helpers.py
@@ -32,7 +32,7 @@ def register_format(
 
 def deregister_format(format_name: str):
     for value in extension_to_filetypes.values():
-        if format_name in value:
+        while format_name in value:
             value.remove(format_name)
 
     if format_name in reader_map:
-- 
2.43.0


From a2809f6671237367dbc9db065f139bb02065e017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:35 +0000
Subject: [PATCH 59/90] fix: arrays read from uncompressed binary VTU files
 were read-only

---
 src/meshio/vtu/_vtu.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/meshio/vtu/_vtu.py b/src/meshio/vtu/_vtu.py
index be80904..07b8ceb 100644
--- a/src/meshio/vtu/_vtu.py
+++ b/src/meshio/vtu/_vtu.py
@@ -469,7 +469,8 @@ class VtuReader:
             dtype = dtype.newbyteorder(
                 "<" if self.byte_order == "LittleEndian" else ">"
             )
-        return np.frombuffer(byte_string[:total_num_bytes], dtype=dtype)
+        # copy since frombuffer() returns read-only arrays
+        return np.frombuffer(byte_string[:total_num_bytes], dtype=dtype).copy()
 
     def read_compressed_binary(self, data, dtype):
         # first read the block size; it determines the size of the header
-- 
2.43.0


From 04681217de1563a7eb8d1d383610f28785eb5dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:11 +0000
Subject: [PATCH 60/90] fix: flac3d: cell sets of all but the first cell block
 had wrong indices

---
 src/meshio/flac3d/_flac3d.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/meshio/flac3d/_flac3d.py b/src/meshio/flac3d/_flac3d.py
index 0b1dee8..97cf346 100644
--- a/src/meshio/flac3d/_flac3d.py
+++ b/src/meshio/flac3d/_flac3d.py
@@ -244,7 +244,11 @@ def read_buffer(f, binary):
     bins = np.cumsum([len(cb[1]) for cb in cell_blocks])
     for key, data in cell_sets.items():
         d = np.digitize(data, bins)
-        cell_sets[key] = [data[d == k] for k in range(len(cell_blocks))]
+        # cell_sets are relative to the cell block
+        cell_sets[key] = [
+            data[d == k] - (bins[k - 1] if k > 0 else 0)
+            for k in range(len(cell_blocks))
+        ]
 
     # assert len(cell_ids) == sum(len(block) for _, block in cell_blocks)
 
-- 
2.43.0


From 090ecb1971b329fdd6c65bb66f591232df79eb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:11 +0000
Subject: [PATCH 61/90] fix: flac3d: binary files with non-ASCII group names
 were corrupt

---
 src/meshio/flac3d/_flac3d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/meshio/flac3d/_flac3d.py b/src/meshio/flac3d/_flac3d.py
index 97cf346..5d17707 100644
--- a/src/meshio/flac3d/_flac3d.py
+++ b/src/meshio/flac3d/_flac3d.py
@@ -510,11 +510,12 @@ def _write_groups(f, cells, materials, flag, binary) -> None:
     if binary:
         f.write(struct.pack("<I", len(materials)))
         for label, group in materials.items():
+            label = label.encode()
             num_chars, num_zones = len(label), len(group)
             fmt = f"<H{num_chars}sH7sI{num_zones}I"
             tmp = [
                 num_chars,
-                label.encode(),
+                label,
                 7,
                 b"Default",  # slot
                 num_zones,
-- 
2.43.0


From 975ebe8da30c228549fe313179c8a0f1513160a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:24 +0000
Subject: [PATCH 62/90] fix: permas: cells of four types were read back in
 another node order than written

---
 src/meshio/permas/_permas.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/meshio/permas/_permas.py b/src/meshio/permas/_permas.py
index dda02a3..5cb68c6 100644
--- a/src/meshio/permas/_permas.py
+++ b/src/meshio/permas/_permas.py
@@ -56,6 +56,14 @@ permas_to_meshio_type = {
 }
 meshio_to_permas_type = {v: k for k, v in permas_to_meshio_type.items()}
 
+# node k of a PERMAS element is node order[k] of the meshio cell
+node_orders = {
+    "triangle6": [0, 3, 1, 4, 2, 5],
+    "tetra10": [0, 4, 1, 5, 2, 6, 7, 8, 9, 3],
+    "quad9": [0, 4, 1, 7, 8, 5, 3, 6, 2],
+    "wedge15": [0, 6, 1, 7, 2, 8, 9, 10, 11, 3, 12, 4, 13, 5, 14],
+}
+
 
 def read(filename):
     """Reads a PERMAS dat file."""
@@ -155,7 +163,11 @@ def _read_cells(f, line0, point_gids):
             cells.append(idx)
             idx = []
     f.seek(last_pos)
-    return cell_type, np.array(cells)
+    cells = np.array(cells)
+    if cell_type in node_orders and len(cells) > 0:
+        # undo the node order of the file
+        cells = cells[:, np.argsort(node_orders[cell_type])]
+    return cell_type, cells
 
 
 def get_param_map(word, required_keys=None):
@@ -239,10 +251,6 @@ def write(filename, mesh):
         for k, x in enumerate(points):
             f.write(f"{k + 1} {x[0]} {x[1]} {x[2]}\n")
         eid = 0
-        tria6_order = [0, 3, 1, 4, 2, 5]
-        tet10_order = [0, 4, 1, 5, 2, 6, 7, 8, 9, 3]
-        quad9_order = [0, 4, 1, 7, 8, 5, 3, 6, 2]
-        wedge15_order = [0, 6, 1, 7, 2, 8, 9, 10, 11, 3, 12, 4, 13, 5, 14]
         for cell_block in mesh.cells:
             node_idcs = cell_block.data
             f.write("!\n")
@@ -251,28 +259,28 @@ def write(filename, mesh):
                 for row in node_idcs:
                     eid += 1
                     mylist = row.tolist()
-                    mylist = [mylist[i] for i in tet10_order]
+                    mylist = [mylist[i] for i in node_orders["tetra10"]]
                     nids_strs = (str(nid + 1) for nid in mylist)
                     f.write(str(eid) + " " + " ".join(nids_strs) + "\n")
             elif cell_block.type == "triangle6":
                 for row in node_idcs:
                     eid += 1
                     mylist = row.tolist()
-                    mylist = [mylist[i] for i in tria6_order]
+                    mylist = [mylist[i] for i in node_orders["triangle6"]]
                     nids_strs = (str(nid + 1) for nid in mylist)
                     f.write(str(eid) + " " + " ".join(nids_strs) + "\n")
             elif cell_block.type == "quad9":
                 for row in node_idcs:
                     eid += 1
                     mylist = row.tolist()
-                    mylist = [mylist[i] for i in quad9_order]
+                    mylist = [mylist[i] for i in node_orders["quad9"]]
                     nids_strs = (str(nid + 1) for nid in mylist)
                     f.write(str(eid) + " " + " ".join(nids_strs) + "\n")
             elif cell_block.type == "wedge15":
                 for row in node_idcs:
                     eid += 1
                     mylist = row.tolist()
-                    mylist = [mylist[i] for i in wedge15_order]
+                    mylist = [mylist[i] for i in node_orders["wedge15"]]
                     nids_strs = (str(nid + 1) for nid in mylist)
                     f.write(str(eid) + " " + " ".join(nids_strs) + "\n")
             else:
-- 
2.43.0


From cbcecf14ce161e773d2ad12aa31ad45d33d25b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:24 +0000
Subject: [PATCH 63/90] fix: ansys: binary files with points or cells of other
 dtypes were corrupt

---
 src/meshio/ansys/_ansys.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/meshio/ansys/_ansys.py b/src/meshio/ansys/_ansys.py
index 3ab4158..252c7e6 100644
--- a/src/meshio/ansys/_ansys.py
+++ b/src/meshio/ansys/_ansys.py
@@ -425,7 +425,8 @@ def write(filename, mesh, binary=True):
             f"({key} (1 {first_node_index:x} {num_points:x} 1 {dim:x})(\n".encode()
         )
         if binary:
-            fh.write(mesh.points.tobytes())
+            # section 3010 holds doubles
+            fh.write(mesh.points.astype(np.float64).tobytes())
             fh.write(b"\n)")
             fh.write(b"End of Binary Section 3010)\n")
         else:
@@ -452,6 +453,8 @@ def write(filename, mesh, binary=True):
         for cell_block in mesh.cells:
             cell_type = cell_block.type
             values = cell_block.data
+            if binary and values.dtype not in binary_dtypes:
+                values = values.astype(np.int64)
             key = binary_dtypes[values.dtype] if binary else "12"
             last_index = first_index + len(values) - 1
             try:
-- 
2.43.0


From 877bf0e47f50dc7bb06645187ea7e27f5b8bf119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:24 +0000
Subject: [PATCH 64/90] fix: medit: points in foreign byte order could not be
 written

---
 src/meshio/medit/_medit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/meshio/medit/_medit.py b/src/meshio/medit/_medit.py
index 4500375..fb22e4d 100644
--- a/src/meshio/medit/_medit.py
+++ b/src/meshio/medit/_medit.py
@@ -309,7 +309,9 @@ def write(filename, mesh, float_fmt=".16e"):
 
 def write_ascii_file(filename, mesh, float_fmt=".16e"):
     with open_file(filename, "wb") as fh:
-        version = {np.dtype(c_float): 1, np.dtype(c_double): 2}[mesh.points.dtype]
+        version = {np.dtype(c_float): 1, np.dtype(c_double): 2}[
+            mesh.points.dtype.newbyteorder("=")
+        ]
         # N. B.: PEP 461 Adding % formatting to bytes and bytearray
         fh.write(f"MeshVersionFormatted {version}\n".encode())
 
-- 
2.43.0


From 338323b5ab6600ecd264d21be263507721251c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:00 +0000
Subject: [PATCH 65/90] fix: h5m: meshes with cell data could not be written

---
 src/meshio/h5m/_h5m.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/meshio/h5m/_h5m.py b/src/meshio/h5m/_h5m.py
index 8b4854b..479071c 100644
--- a/src/meshio/h5m/_h5m.py
+++ b/src/meshio/h5m/_h5m.py
@@ -243,7 +243,7 @@ def _write(f, mesh, add_global_ids, compression, compression_opts):
         "triangle": {"name": "Tri3", "type": 2},
         "tetra": {"name": "Tet4", "type": 5},
     }
-    for cell_block in mesh.cells:
+    for k, cell_block in enumerate(mesh.cells):
         key = cell_block.type
         data = cell_block.data
         if key not in meshio_to_h5m_type:
@@ -263,15 +263,14 @@ def _write(f, mesh, add_global_ids, compression, compression_opts):
         conn.attrs.create("start_id", global_id)
         global_id += len(data)
 
-    # add cell data
-    for cell_type, cd in mesh.cell_data.items():
-        if cd:
+        # add cell data
+        if mesh.cell_data:
             tags = elem_group.create_group("tags")
-            for key, value in cd.items():
+            for name, values in mesh.cell_data.items():
                 create_dataset(
                     tags,
-                    key,
-                    data=value,
+                    name,
+                    data=values[k],
                     compression=compression,
                     compression_opts=compression_opts,
                 )
-- 
2.43.0


From d39eac84218e831542a076af1ee70f8fa8b46f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:00 +0000
Subject: [PATCH 66/90] fix: nastran: cells in free format could not be written

---
 src/meshio/nastran/_nastran.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/meshio/nastran/_nastran.py b/src/meshio/nastran/_nastran.py
index 7ce3e28..130011d 100644
--- a/src/meshio/nastran/_nastran.py
+++ b/src/meshio/nastran/_nastran.py
@@ -311,6 +311,7 @@ def write(filename, mesh, point_format="fixed-large", cell_format="fixed-small")
     if cell_format == "free":
         int_fmt, cell_info_fmt = "{:d}", "{:s},{:d},{:s},"
         sjoin = ","
+        nipl1, nipl2 = 6, 14
     elif cell_format == "fixed-small":
         int_fmt, cell_info_fmt = "{:<8d}", "{:<8s}{:<8d}{:<8s}"
         sjoin, cchar = "", "+"
-- 
2.43.0


From ef9f4451be8f6be63d9bad606b4598c575b1b67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:00 +0000
Subject: [PATCH 67/90] fix: ply: binary files with 16-bit integers could not
 be read

---
 src/meshio/ply/_ply.py | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/src/meshio/ply/_ply.py b/src/meshio/ply/_ply.py
index e80b467..0d17017 100644
--- a/src/meshio/ply/_ply.py
+++ b/src/meshio/ply/_ply.py
@@ -29,6 +29,7 @@ ply_to_numpy_dtype = {
     "ushort": np.uint16,
     "int": np.int32,
     "int8": np.int8,
+    "int16": np.int16,
     "int32": np.int32,
     "int64": np.int64,
     "uint": np.uint32,
@@ -265,19 +266,7 @@ def _read_binary(
     cell_data_dtypes,
 ):
     ply_to_numpy_dtype_string = {
-        "uchar": "i1",
-        "uint": "u4",
-        "uint8": "u1",
-        "uint16": "u2",
-        "uint32": "u4",
-        "uint64": "u8",
-        "int": "i4",
-        "int8": "i1",
-        "int32": "i4",
-        "int64": "i8",
-        "float": "f4",
-        "float32": "f4",
-        "double": "f8",
+        name: np.dtype(dtype).str[1:] for name, dtype in ply_to_numpy_dtype.items()
     }
 
     # read point data
-- 
2.43.0


From 09c28487b2039b1bd2962609403659520ca377b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:00 +0000
Subject: [PATCH 68/90] fix: ply: arrays in foreign byte order could not be
 written

---
 src/meshio/ply/_ply.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/meshio/ply/_ply.py b/src/meshio/ply/_ply.py
index 0d17017..fe5e274 100644
--- a/src/meshio/ply/_ply.py
+++ b/src/meshio/ply/_ply.py
@@ -385,6 +385,13 @@ def write(filename, mesh: Mesh, binary: bool = True):  # noqa: C901
     # the cells may be cast below; don't alter the mesh data
     cells = list(mesh.cells)
 
+    # the file is in native byte order
+    points = mesh.points.astype(mesh.points.dtype.newbyteorder("="))
+    for k, cell_block in enumerate(cells):
+        if not cell_block.data.dtype.isnative:
+            dtype = cell_block.data.dtype.newbyteorder("=")
+            cells[k] = CellBlock(cell_block.type, cell_block.data.astype(dtype))
+
     with open_file(filename, "wb") as fh:
         fh.write(b"ply\n")
 
@@ -419,7 +426,7 @@ def write(filename, mesh: Mesh, binary: bool = True):  # noqa: C901
             np.dtype(np.float64): "double",
         }
         for k in range(mesh.points.shape[1]):
-            type_name = type_name_table[mesh.points.dtype]
+            type_name = type_name_table[mesh.points.dtype.newbyteorder("=")]
             fh.write(f"property {type_name} {dim_names[k]}\n".encode())
 
         pd = []
@@ -430,9 +437,9 @@ def write(filename, mesh: Mesh, binary: bool = True):  # noqa: C901
                     f"Skipping {key}."
                 )
                 continue
-            type_name = type_name_table[value.dtype]
+            type_name = type_name_table[value.dtype.newbyteorder("=")]
             fh.write(f"property {type_name} {key}\n".encode())
-            pd.append(value)
+            pd.append(value.astype(value.dtype.newbyteorder("=")))
 
         num_cells = 0
         legal_cell_types = ["vertex", "line", "triangle", "quad", "polygon"]
@@ -472,7 +479,7 @@ def write(filename, mesh: Mesh, binary: bool = True):  # noqa: C901
 
         if binary:
             # points and point_data
-            out = np.rec.fromarrays([coord for coord in mesh.points.T] + pd)
+            out = np.rec.fromarrays([coord for coord in points.T] + pd)
             fh.write(out.tobytes())
 
             # cells
@@ -493,7 +500,7 @@ def write(filename, mesh: Mesh, binary: bool = True):  # noqa: C901
             # vertices
             # np.savetxt(fh, mesh.points, "%r")  # slower
             # out = np.column_stack([mesh.points] + list(mesh.point_data.values()))
-            out = np.rec.fromarrays([coord for coord in mesh.points.T] + pd)
+            out = np.rec.fromarrays([coord for coord in points.T] + pd)
             fmt = " ".join(["{}"] * len(out[0]))
             out = "\n".join([fmt.format(*row) for row in out]) + "\n"
             fh.write(out.encode())
-- 
2.43.0


From 926bbd525c52d0a436e3e9c4dc8a3c26d1009cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:32 +0000
Subject: [PATCH 69/90] fix: gmsh 4.1: point data was attached to the wrong
 points with several node entities

---
 src/meshio/gmsh/_gmsh41.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/meshio/gmsh/_gmsh41.py b/src/meshio/gmsh/_gmsh41.py
index e024e63..d21e4c5 100644
--- a/src/meshio/gmsh/_gmsh41.py
+++ b/src/meshio/gmsh/_gmsh41.py
@@ -189,7 +189,9 @@ def _read_nodes(f, is_ascii: bool, data_size):
 
     _fast_forward_to_end_block(f, "Nodes")
 
-    return points, tags, dim_tags
+    # $NodeData and $Periodic refer to the nodes by tag
+    order = np.argsort(tags, kind="stable")
+    return points[order], tags[order], dim_tags[order]
 
 
 def _read_elements(
-- 
2.43.0


From 631ebe2c9d36aedf616946efa5209da5d02828cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:13 +0000
Subject: [PATCH 70/90] fix: xdmf: binary data in foreign byte order was
 written unconverted

---
 src/meshio/xdmf/main.py        | 3 ++-
 src/meshio/xdmf/time_series.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/meshio/xdmf/main.py b/src/meshio/xdmf/main.py
index 51f7458..9b3c5d4 100644
--- a/src/meshio/xdmf/main.py
+++ b/src/meshio/xdmf/main.py
@@ -396,7 +396,8 @@ class XdmfWriter:
             self.data_counter += 1
             # write binary data to file
             with open(bin_filename, "wb") as f:
-                f.write(data.tobytes())
+                # the file is in native byte order
+                f.write(data.astype(data.dtype.newbyteorder("=")).tobytes())
             # relative to the XDMF (XML) file, as for HDF
             return os.path.basename(bin_filename)
 
diff --git a/src/meshio/xdmf/time_series.py b/src/meshio/xdmf/time_series.py
index 0b21333..5945de6 100644
--- a/src/meshio/xdmf/time_series.py
+++ b/src/meshio/xdmf/time_series.py
@@ -342,7 +342,8 @@ class TimeSeriesWriter:
             self.data_counter += 1
             # write binary data to file
             with open(self.filename.parent / bin_filename, "wb") as f:
-                f.write(data.tobytes())
+                # the file is in native byte order
+                f.write(data.astype(data.dtype.newbyteorder("=")).tobytes())
             return bin_filename
 
         if self.data_format != "HDF":
-- 
2.43.0


From 30b6290eeab3d8687c83f48214239a1c52fb4817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:15 +0000
Subject: [PATCH 71/90] fix: vtu: data names with <, & or quotes gave files
 which cannot be read

---
 src/meshio/_cxml/etree.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/meshio/_cxml/etree.py b/src/meshio/_cxml/etree.py
index f06c999..979d8c6 100644
--- a/src/meshio/_cxml/etree.py
+++ b/src/meshio/_cxml/etree.py
@@ -5,6 +5,7 @@
 # written in the text fields. Converting this to ASCII first requires a lot of memory.
 # This etree here allows the writing method to write to the file directly, without
 # having to create a string representation first.
+from xml.sax.saxutils import escape
 
 
 class Element:
@@ -22,7 +23,10 @@ class Element:
         self.attrib[key] = value
 
     def write(self, f):
-        kw_list = [f'{key}="{value}"' for key, value in self.attrib.items()]
+        kw_list = []
+        for key, value in self.attrib.items():
+            value = escape(str(value), {'"': "&quot;"})
+            kw_list.append(f'{key}="{value}"')
         f.write("<{}>\n".format(" ".join([self.name] + kw_list)))
         if self.text:
             f.write(self.text)
-- 
2.43.0


From a9a40005f5fc16767dcc1b9b37b2ea2a05d9be8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:15 +0000
Subject: [PATCH 72/90] fix: vtu: cell data of polyhedra was attached to the
 wrong blocks

---
 src/meshio/vtu/_vtu.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/meshio/vtu/_vtu.py b/src/meshio/vtu/_vtu.py
index 07b8ceb..b6134e7 100644
--- a/src/meshio/vtu/_vtu.py
+++ b/src/meshio/vtu/_vtu.py
@@ -90,7 +90,8 @@ def _polyhedron_cells_from_data(offsets, faces, faceoffsets, cell_data_raw):
 
     # Loop over all cell sizes, find all cells with this size, and store
     # cell data.
-    for sz in np.unique(size):
+    # (in the order of the cell blocks, i.e., of first appearance)
+    for sz in dict.fromkeys(size.tolist()):
         # Cells with this number of nodes.
         items = np.where(size == sz)[0]
 
-- 
2.43.0


From 38b8d878eed6b65eae532aa68b9e1a8a12e01fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:09 +0000
Subject: [PATCH 73/90] fix: nastran: cells in large field format were not read
 back

---
 src/meshio/nastran/_nastran.py | 36 ++++++++++++++++------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/src/meshio/nastran/_nastran.py b/src/meshio/nastran/_nastran.py
index 130011d..ffe750b 100644
--- a/src/meshio/nastran/_nastran.py
+++ b/src/meshio/nastran/_nastran.py
@@ -173,7 +173,8 @@ def read_buffer(f):
 
         # merge chunks according to large field format
         # large field format: 8 + 16 + 16 + 16 + 16 + 8
-        if chunks[0][0].startswith("GRID*"):
+        is_large = chunks[0][0].rstrip().endswith("*")
+        if is_large:
             new_chunks = []
             for c in chunks:
                 d = [c[0]]
@@ -215,9 +216,11 @@ def read_buffer(f):
         chunks = [chunk.strip() for chunk in chunks]
 
         keyword = chunks[0]
+        if is_large:
+            keyword = keyword[:-1]
 
         # Points
-        if keyword in ["GRID", "GRID*"]:
+        if keyword == "GRID":
             point_id = int(chunks[1])
             pref = chunks[2].strip()
             if len(pref) > 0:
@@ -351,8 +354,7 @@ def write(filename, mesh, point_format="fixed-large", cell_format="fixed-small")
             cell_type = cell_block.type
             cells = cell_block.data
             nastran_type = meshio_to_nastran_type[cell_type]
-            if cell_format.endswith("-large"):
-                nastran_type += "*"
+            card = nastran_type + ("*" if cell_format.endswith("-large") else "")
             if cell_refs is not None:
                 cell_refs_t = cell_refs[ict]
             else:
@@ -361,28 +363,24 @@ def write(filename, mesh, point_format="fixed-large", cell_format="fixed-small")
                 if cell_refs is not None:
                     cell_ref = str(int(cell_refs_t[ic]))
                 cell_id += 1
-                cell_info = cell_info_fmt.format(nastran_type, cell_id, cell_ref)
+                cell_info = cell_info_fmt.format(card, cell_id, cell_ref)
                 cell1 = cell + 1
                 cell1 = _convert_to_nastran_ordering(cell1, nastran_type)
                 conn = sjoin.join(int_fmt.format(nid) for nid in cell1[:nipl1])
 
-                if len(cell1) > nipl1:
+                # continuation lines
+                step = nipl2 - nipl1
+                for j, k0 in enumerate(range(nipl1, len(cell1), step)):
                     if cell_format == "free":
-                        cflag1 = cflag3 = ""
-                        cflag2 = cflag4 = "+,"
+                        cflag1, cflag2 = "", "+,"
                     else:
-                        cflag1 = cflag2 = f"{cchar}1{cell_id:<6x}"
-                        cflag3 = cflag4 = f"{cchar}2{cell_id:<6x}"
+                        cflag1 = cflag2 = f"{cchar}{j + 1}{cell_id:<6x}"
                     f.write(cell_info + conn + cflag1 + "\n")
-                    conn = sjoin.join(int_fmt.format(nid) for nid in cell1[nipl1:nipl2])
-                    if len(cell1) > nipl2:
-                        f.write(cflag2 + conn + cflag3 + "\n")
-                        conn = sjoin.join(int_fmt.format(nid) for nid in cell1[nipl2:])
-                        f.write(cflag4 + conn + "\n")
-                    else:
-                        f.write(cflag2 + conn + "\n")
-                else:
-                    f.write(cell_info + conn + "\n")
+                    cell_info = cflag2
+                    conn = sjoin.join(
+                        int_fmt.format(nid) for nid in cell1[k0 : k0 + step]
+                    )
+                f.write(cell_info + conn + "\n")
 
         f.write("ENDDATA\n")
 
-- 
2.43.0


From 604fc065297a57d31ba15c8c56b7c80856429f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:34 +0000
Subject: [PATCH 74/90] fix: vtu: cell offsets overflowed for connectivity of
 small integer types

---
 src/meshio/vtu/_vtu.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/meshio/vtu/_vtu.py b/src/meshio/vtu/_vtu.py
index b6134e7..dc4af52 100644
--- a/src/meshio/vtu/_vtu.py
+++ b/src/meshio/vtu/_vtu.py
@@ -853,8 +853,8 @@ def write(filename, mesh, binary=True, compression="zlib", header_type=None):
 
             # offset (points to the first element of the next cell)
             offsets = [
-                v.data.shape[1]
-                * np.arange(1, v.data.shape[0] + 1, dtype=connectivity.dtype)
+                # not the dtype of the connectivity, which can be too small
+                v.data.shape[1] * np.arange(1, v.data.shape[0] + 1, dtype=np.int64)
                 for v in mesh.cells
             ]
             for k in range(1, len(offsets)):
-- 
2.43.0


From b348c4c23210add235ffb07e19ca2c206b4f6123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:13 +0000
Subject: [PATCH 75/90] fix: vtu: writing replaced arrays in foreign byte order
 in the mesh

---
 src/meshio/vtu/_vtu.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/meshio/vtu/_vtu.py b/src/meshio/vtu/_vtu.py
index dc4af52..b6104c9 100644
--- a/src/meshio/vtu/_vtu.py
+++ b/src/meshio/vtu/_vtu.py
@@ -5,6 +5,7 @@ I/O for VTU.
 """
 
 import base64
+import copy
 import re
 import sys
 import zlib
@@ -673,6 +674,13 @@ def write(filename, mesh, binary=True, compression="zlib", header_type=None):
     # swap the data to match the system byteorder
     # Don't use byteswap to make sure that the dtype is changed; see
     # <https://github.com/numpy/numpy/issues/10372>.
+    # Don't do this to the mesh of the caller.
+    mesh = copy.copy(mesh)
+    if not is_polyhedron_grid:
+        mesh.cells = list(mesh.cells)
+    mesh.point_data = dict(mesh.point_data)
+    mesh.cell_data = {key: list(data) for key, data in mesh.cell_data.items()}
+    mesh.field_data = dict(mesh.field_data)
     points = points.astype(points.dtype.newbyteorder("="), copy=False)
     for k, cell_block in enumerate(mesh.cells):
         cell_type = cell_block.type
-- 
2.43.0


From 32e10fc4a42debe23b2edd01d21b06640635512e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:07 +0000
Subject: [PATCH 76/90] fix: su2, off: a read error inside a number gave a
 wrong number

---
 src/meshio/off/_off.py | 8 +++-----
 src/meshio/su2/_su2.py | 4 ++--
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/meshio/off/_off.py b/src/meshio/off/_off.py
index f657f65..e37660a 100644
--- a/src/meshio/off/_off.py
+++ b/src/meshio/off/_off.py
@@ -8,7 +8,7 @@ import numpy as np
 
 from .._common import warn
 from .._exceptions import ReadError
-from .._files import open_file
+from .._files import fromfile, open_file
 from .._helpers import register_format
 from .._mesh import CellBlock, Mesh
 
@@ -44,10 +44,8 @@ def read_buffer(f):
     num_verts = int(num_verts)
     num_faces = int(num_faces)
 
-    verts = np.fromfile(f, dtype=float, count=3 * num_verts, sep=" ").reshape(
-        num_verts, 3
-    )
-    data = np.fromfile(f, dtype=int, count=4 * num_faces, sep=" ").reshape(num_faces, 4)
+    verts = fromfile(f, dtype=float, count=3 * num_verts, sep=" ").reshape(num_verts, 3)
+    data = fromfile(f, dtype=int, count=4 * num_faces, sep=" ").reshape(num_faces, 4)
     if not np.all(data[:, 0] == 3):
         raise ReadError("Can only read triangular faces")
     cells = [CellBlock("triangle", data[:, 1:])]
diff --git a/src/meshio/su2/_su2.py b/src/meshio/su2/_su2.py
index b7e296a..00e7d89 100644
--- a/src/meshio/su2/_su2.py
+++ b/src/meshio/su2/_su2.py
@@ -9,7 +9,7 @@ import numpy as np
 
 from .._common import _pick_first_int_data, warn
 from .._exceptions import ReadError
-from .._files import open_file
+from .._files import fromfile, open_file
 from .._helpers import register_format
 from .._mesh import CellBlock, Mesh
 
@@ -98,7 +98,7 @@ def read_buffer(f):
             extra_columns = first_line.shape[0] - dim
 
             num_verts = int(rest_of_line.split()[0]) - 1
-            points = np.fromfile(
+            points = fromfile(
                 f, count=num_verts * (dim + extra_columns), dtype=ftype, sep=" "
             ).reshape(num_verts, dim + extra_columns)
 
-- 
2.43.0


From 97e8034247e01ea65882d8e2f4b3ea0cfb6ded7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:11 +0000
Subject: [PATCH 77/90] fix: xdmf: mixed unsigned 64-bit cells became floating
 point numbers

---
 src/meshio/xdmf/main.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/meshio/xdmf/main.py b/src/meshio/xdmf/main.py
index 9b3c5d4..e75810c 100644
--- a/src/meshio/xdmf/main.py
+++ b/src/meshio/xdmf/main.py
@@ -483,6 +483,7 @@ class XdmfWriter:
                                     2 if cell_block.type in {"vertex", "line"} else 1,
                                 ),
                                 meshio_type_to_xdmf_index[cell_block.type],
+                                dtype=cell_block.data.dtype,
                             ),
                             cell_block.data,
                         ]
-- 
2.43.0


From 0030b8ae470e23de59f55d0405f0591a425df9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:13 +0000
Subject: [PATCH 78/90] fix: one-based node numbers overflowed small integer
 types

---
 src/meshio/_common.py          |  7 +++++++
 src/meshio/ansys/_ansys.py     |  2 +-
 src/meshio/avsucd/_avsucd.py   |  6 +++---
 src/meshio/cgns/_cgns.py       |  4 ++--
 src/meshio/exodus/_exodus.py   |  9 +++++----
 src/meshio/flac3d/_flac3d.py   |  6 +++---
 src/meshio/gmsh/_gmsh22.py     | 15 ++++++++++-----
 src/meshio/gmsh/_gmsh40.py     |  9 +++++++--
 src/meshio/gmsh/_gmsh41.py     | 10 ++++++++--
 src/meshio/h5m/_h5m.py         |  4 ++--
 src/meshio/mdpa/_mdpa.py       |  6 +++---
 src/meshio/med/_med.py         |  4 ++--
 src/meshio/medit/_medit.py     |  6 +++---
 src/meshio/nastran/_nastran.py |  4 ++--
 src/meshio/netgen/_netgen.py   |  4 ++--
 src/meshio/obj/_obj.py         |  5 +++--
 src/meshio/tecplot/_tecplot.py |  6 +++---
 src/meshio/ugrid/_ugrid.py     |  6 +++---
 18 files changed, 69 insertions(+), 44 deletions(-)

diff --git a/src/meshio/_common.py b/src/meshio/_common.py
index c903b0e..d2327af 100644
--- a/src/meshio/_common.py
+++ b/src/meshio/_common.py
@@ -154,6 +154,13 @@ def is_in_any(string: str, strings: list[str]) -> bool:
     return False
 
 
+def one_based(cells):
+    """Node numbers starting at 1. Small integer types might not hold the last one."""
+    if cells.dtype.itemsize < 4:
+        cells = cells.astype(np.int32)
+    return cells + 1
+
+
 def join_strings(strings: list[str]) -> tuple[str, str]:
     """Join strings such that they can be uniquely split again afterwards."""
     possible_join_chars = ["-", "_", "#", "+", "/"]
diff --git a/src/meshio/ansys/_ansys.py b/src/meshio/ansys/_ansys.py
index 252c7e6..26d2898 100644
--- a/src/meshio/ansys/_ansys.py
+++ b/src/meshio/ansys/_ansys.py
@@ -453,7 +453,7 @@ def write(filename, mesh, binary=True):
         for cell_block in mesh.cells:
             cell_type = cell_block.type
             values = cell_block.data
-            if binary and values.dtype not in binary_dtypes:
+            if values.dtype not in binary_dtypes:
                 values = values.astype(np.int64)
             key = binary_dtypes[values.dtype] if binary else "12"
             last_index = first_index + len(values) - 1
diff --git a/src/meshio/avsucd/_avsucd.py b/src/meshio/avsucd/_avsucd.py
index 1136f7c..e0d6a21 100644
--- a/src/meshio/avsucd/_avsucd.py
+++ b/src/meshio/avsucd/_avsucd.py
@@ -6,7 +6,7 @@ I/O for AVS-UCD format, cf.
 import numpy as np
 
 from ..__about__ import __version__ as version
-from .._common import _pick_first_int_data, warn
+from .._common import _pick_first_int_data, one_based, warn
 from .._exceptions import ReadError
 from .._files import open_file
 from .._helpers import register_format
@@ -226,8 +226,8 @@ def _write_cells(f, cells, material):
     for cell_block in cells:
         cell_type = cell_block.type
         v = cell_block.data
-        for cell in v[:, meshio_to_avsucd_order[cell_type]]:
-            cell_str = " ".join(str(c) for c in cell + 1)
+        for cell in one_based(v[:, meshio_to_avsucd_order[cell_type]]):
+            cell_str = " ".join(str(c) for c in cell)
             f.write(
                 f"{i + 1} {material[i]} {meshio_to_avsucd_type[cell_type]} {cell_str}\n"
             )
diff --git a/src/meshio/cgns/_cgns.py b/src/meshio/cgns/_cgns.py
index e81398d..3765421 100644
--- a/src/meshio/cgns/_cgns.py
+++ b/src/meshio/cgns/_cgns.py
@@ -6,7 +6,7 @@ TODO link to specification?
 
 import numpy as np
 
-from .._common import create_dataset
+from .._common import create_dataset, one_based
 from .._exceptions import ReadError
 from .._helpers import register_format
 from .._mesh import Mesh
@@ -104,7 +104,7 @@ def _write(f, mesh, compression, compression_opts):
             create_dataset(
                 conn,
                 " data",
-                data=cell_block.data.reshape(-1) + 1,
+                data=one_based(cell_block.data.reshape(-1)),
                 compression=compression,
                 compression_opts=compression_opts,
             )
diff --git a/src/meshio/exodus/_exodus.py b/src/meshio/exodus/_exodus.py
index 00df481..322b917 100644
--- a/src/meshio/exodus/_exodus.py
+++ b/src/meshio/exodus/_exodus.py
@@ -12,7 +12,7 @@ import re
 import numpy as np
 
 from ..__about__ import __version__
-from .._common import warn
+from .._common import one_based, warn
 from .._exceptions import ReadError, WriteError
 from .._files import is_buffer
 from .._helpers import register_format
@@ -318,11 +318,12 @@ def write(filename, mesh):
             dim2 = f"num_nod_per_el{k + 1}"
             rootgrp.createDimension(dim1, cell_block.data.shape[0])
             rootgrp.createDimension(dim2, cell_block.data.shape[1])
-            dtype = numpy_to_exodus_dtype[cell_block.data.dtype.name]
+            # Exodus is 1-based
+            conn = one_based(cell_block.data)
+            dtype = numpy_to_exodus_dtype[conn.dtype.name]
             data = rootgrp.createVariable(f"connect{k + 1}", dtype, (dim1, dim2))
             data.elem_type = meshio_to_exodus_type[cell_block.type]
-            # Exodus is 1-based
-            data[:] = cell_block.data + 1
+            data[:] = conn
 
         # point data
         # The variable `name_nod_var` holds the names and indices of the node variables, the
diff --git a/src/meshio/flac3d/_flac3d.py b/src/meshio/flac3d/_flac3d.py
index 5d17707..d5dace3 100644
--- a/src/meshio/flac3d/_flac3d.py
+++ b/src/meshio/flac3d/_flac3d.py
@@ -11,7 +11,7 @@ import time
 import numpy as np
 
 from ..__about__ import __version__ as version
-from .._common import warn
+from .._common import one_based, warn
 from .._exceptions import ReadError
 from .._files import open_file
 from .._helpers import register_format
@@ -481,7 +481,7 @@ def _write_cells(f, cells, flag: str, binary: bool, gid):
                 (
                     np.arange(1, num_cells + 1) + gid,
                     np.full(num_cells, num_verts),
-                    cdata + 1,
+                    one_based(cdata),
                 )
             ).astype(int)
             f.write(struct.pack(f"<{(num_verts + 2) * num_cells}I", *tmp.ravel()))
@@ -493,7 +493,7 @@ def _write_cells(f, cells, flag: str, binary: bool, gid):
         f.write(f"* {entity}\n")
         for ctype, cdata in cells:
             fmt = f"{abbrev} {{}} {{}} " + " ".join(["{}"] * cdata.shape[1]) + "\n"
-            for entry in cdata + 1:
+            for entry in one_based(cdata):
                 gid += 1
                 f.write(fmt.format(meshio_to_flac3d_type[ctype], gid, *entry))
 
diff --git a/src/meshio/gmsh/_gmsh22.py b/src/meshio/gmsh/_gmsh22.py
index dd6ac51..daab7e4 100644
--- a/src/meshio/gmsh/_gmsh22.py
+++ b/src/meshio/gmsh/_gmsh22.py
@@ -7,7 +7,13 @@ from __future__ import annotations
 
 import numpy as np
 
-from .._common import cell_data_from_raw, num_nodes_per_cell, raw_from_cell_data, warn
+from .._common import (
+    cell_data_from_raw,
+    num_nodes_per_cell,
+    one_based,
+    raw_from_cell_data,
+    warn,
+)
 from .._exceptions import ReadError
 from .._files import fromfile as fromfile_
 from .._mesh import CellBlock, Mesh
@@ -368,7 +374,7 @@ def _write_elements(fh, cells: list[CellBlock], tag_data, binary: bool):
             # actual data
             a = np.arange(len(node_idcs), dtype=c_int)[:, np.newaxis]
             a += 1 + consecutive_index
-            array = np.hstack([a, fcd, node_idcs + 1])
+            array = np.hstack([a, fcd, one_based(node_idcs)])
             if array.dtype != c_int:
                 array = array.astype(c_int)
             fh.write(array.tobytes())
@@ -380,13 +386,12 @@ def _write_elements(fh, cells: list[CellBlock], tag_data, binary: bool):
                 + str(fcd.shape[1])
                 + " {} {}\n"
             )
-            for i, c in enumerate(node_idcs):
+            for i, c in enumerate(one_based(node_idcs)):
                 fh.write(
                     form.format(
                         consecutive_index + i + 1,
                         " ".join([str(val) for val in fcd[i]]),
-                        # a bit clumsy for `c+1`, but if c is uint64, c+1 is float64
-                        " ".join([str(cc) for cc in c + np.array(1, dtype=c.dtype)]),
+                        " ".join([str(cc) for cc in c]),
                     ).encode()
                 )
 
diff --git a/src/meshio/gmsh/_gmsh40.py b/src/meshio/gmsh/_gmsh40.py
index fe86911..736f691 100644
--- a/src/meshio/gmsh/_gmsh40.py
+++ b/src/meshio/gmsh/_gmsh40.py
@@ -9,7 +9,12 @@ from functools import partial
 
 import numpy as np
 
-from .._common import cell_data_from_raw, num_nodes_per_cell, raw_from_cell_data
+from .._common import (
+    cell_data_from_raw,
+    num_nodes_per_cell,
+    one_based,
+    raw_from_cell_data,
+)
 from .._exceptions import ReadError
 from .._files import fromfile as fromfile_
 from .._mesh import CellBlock, Mesh
@@ -364,7 +369,7 @@ def _write_elements(fh, cell_blocks: list[CellBlock], binary: bool):
                 ).encode()
             )
             # increment indices by one to conform with gmsh standard
-            idcs = cell_data + 1
+            idcs = one_based(cell_data)
 
             fmt = " ".join(["{}"] * (num_nodes_per_cell[cell_type] + 1)) + "\n"
             for idx in idcs:
diff --git a/src/meshio/gmsh/_gmsh41.py b/src/meshio/gmsh/_gmsh41.py
index d21e4c5..4decc83 100644
--- a/src/meshio/gmsh/_gmsh41.py
+++ b/src/meshio/gmsh/_gmsh41.py
@@ -7,7 +7,13 @@ from functools import partial
 
 import numpy as np
 
-from .._common import cell_data_from_raw, num_nodes_per_cell, raw_from_cell_data, warn
+from .._common import (
+    cell_data_from_raw,
+    num_nodes_per_cell,
+    one_based,
+    raw_from_cell_data,
+    warn,
+)
 from .._exceptions import ReadError, WriteError
 from .._files import fromfile as fromfile_
 from .._mesh import CellBlock, Mesh
@@ -720,7 +726,7 @@ def _write_elements(fh, cells, tag_data, binary: bool) -> None:
             np.savetxt(
                 fh,
                 # Gmsh indexes from 1 not 0
-                np.column_stack([np.arange(tag0, tag0 + n), node_idcs + 1]),
+                np.column_stack([np.arange(tag0, tag0 + n), one_based(node_idcs)]),
                 "%d",
                 " ",
             )
diff --git a/src/meshio/h5m/_h5m.py b/src/meshio/h5m/_h5m.py
index 479071c..e2e8cba 100644
--- a/src/meshio/h5m/_h5m.py
+++ b/src/meshio/h5m/_h5m.py
@@ -8,7 +8,7 @@ from datetime import datetime
 import numpy as np
 
 from .. import __about__
-from .._common import create_dataset, warn
+from .._common import create_dataset, one_based, warn
 from .._helpers import register_format
 from .._mesh import CellBlock, Mesh
 
@@ -256,7 +256,7 @@ def _write(f, mesh, add_global_ids, compression, compression_opts):
         conn = create_dataset(
             elem_group,
             "connectivity",
-            data=(data + 1),
+            data=one_based(data),
             compression=compression,
             compression_opts=compression_opts,
         )
diff --git a/src/meshio/mdpa/_mdpa.py b/src/meshio/mdpa/_mdpa.py
index cb923aa..d973067 100644
--- a/src/meshio/mdpa/_mdpa.py
+++ b/src/meshio/mdpa/_mdpa.py
@@ -8,7 +8,7 @@ The MDPA format is unsuitable for fast consumption, this is why:
 
 import numpy as np
 
-from .._common import num_nodes_per_cell, raw_from_cell_data, warn
+from .._common import num_nodes_per_cell, one_based, raw_from_cell_data, warn
 from .._exceptions import ReadError, WriteError
 from .._files import open_file
 from .._helpers import register_format
@@ -398,9 +398,9 @@ def _write_elements_and_conditions(fh, cells, tag_data, binary=False, dimension=
 
         # TODO: Add proper tag recognition in the future
         fcd = np.empty((len(node_idcs), 0), dtype=np.int32)
-        for k, c in enumerate(node_idcs):
+        for k, c in enumerate(one_based(node_idcs)):
             a1 = " ".join([str(val) for val in fcd[k]])
-            a2 = " ".join([str(cc) for cc in c + 1])
+            a2 = " ".join([str(cc) for cc in c])
             fh.write(
                 f" {consecutive_index + k + 1} {fcd.shape[1]} {a1} {a2}\n".encode()
             )
diff --git a/src/meshio/med/_med.py b/src/meshio/med/_med.py
index 6abe517..af6622d 100644
--- a/src/meshio/med/_med.py
+++ b/src/meshio/med/_med.py
@@ -5,7 +5,7 @@ I/O for MED/Salome, cf.
 
 import numpy as np
 
-from .._common import create_dataset, num_nodes_per_cell
+from .._common import create_dataset, num_nodes_per_cell, one_based
 from .._exceptions import ReadError, WriteError
 from .._helpers import register_format
 from .._mesh import Mesh
@@ -283,7 +283,7 @@ def _write(f, mesh):
         med_cells.attrs.create("CGT", 1)
         med_cells.attrs.create("CGS", 1)
         med_cells.attrs.create("PFL", np.bytes_(profile))
-        nod = create_dataset(med_cells, "NOD", data=cells.flatten(order="F") + 1)
+        nod = create_dataset(med_cells, "NOD", data=one_based(cells.flatten(order="F")))
         nod.attrs.create("CGT", 1)
         nod.attrs.create("NBR", len(cells))
 
diff --git a/src/meshio/medit/_medit.py b/src/meshio/medit/_medit.py
index fb22e4d..905172a 100644
--- a/src/meshio/medit/_medit.py
+++ b/src/meshio/medit/_medit.py
@@ -9,7 +9,7 @@ from ctypes import c_double, c_float
 
 import numpy as np
 
-from .._common import _pick_first_int_data, warn
+from .._common import _pick_first_int_data, one_based, warn
 from .._exceptions import ReadError
 from .._files import fromfile, open_file
 from .._helpers import register_format
@@ -378,7 +378,7 @@ def write_ascii_file(filename, mesh, float_fmt=".16e"):
 
             fmt = " ".join(["{:d}"] * (num + 1)) + "\n"
             # adapt 1-base
-            for d, label in zip(data + 1, labels):
+            for d, label in zip(one_based(data), labels):
                 fh.write(fmt.format(*d, label).encode())
 
         fh.write(b"\nEnd\n")
@@ -513,7 +513,7 @@ def write_binary_file(f, mesh):
             tmp_array = np.empty(num_cells, dtype=dtype)
             i = 0
             for col_type in dtype.names[:-1]:
-                tmp_array[col_type] = cell_block.data[:, i] + 1
+                tmp_array[col_type] = one_based(cell_block.data[:, i])
                 i += 1
 
             tmp_array[dtype.names[-1]] = labels
diff --git a/src/meshio/nastran/_nastran.py b/src/meshio/nastran/_nastran.py
index ffe750b..4b9e77c 100644
--- a/src/meshio/nastran/_nastran.py
+++ b/src/meshio/nastran/_nastran.py
@@ -7,7 +7,7 @@ from __future__ import annotations
 import numpy as np
 
 from ..__about__ import __version__
-from .._common import num_nodes_per_cell, warn
+from .._common import num_nodes_per_cell, one_based, warn
 from .._exceptions import ReadError
 from .._files import open_file
 from .._helpers import register_format
@@ -364,7 +364,7 @@ def write(filename, mesh, point_format="fixed-large", cell_format="fixed-small")
                     cell_ref = str(int(cell_refs_t[ic]))
                 cell_id += 1
                 cell_info = cell_info_fmt.format(card, cell_id, cell_ref)
-                cell1 = cell + 1
+                cell1 = one_based(cell)
                 cell1 = _convert_to_nastran_ordering(cell1, nastran_type)
                 conn = sjoin.join(int_fmt.format(nid) for nid in cell1[:nipl1])
 
diff --git a/src/meshio/netgen/_netgen.py b/src/meshio/netgen/_netgen.py
index 9f0be01..5157e8e 100644
--- a/src/meshio/netgen/_netgen.py
+++ b/src/meshio/netgen/_netgen.py
@@ -6,7 +6,7 @@ I/O for Netgen mesh files
 import numpy as np
 
 from ..__about__ import __version__
-from .._common import warn
+from .._common import one_based, warn
 from .._exceptions import ReadError
 from .._files import open_file
 from .._helpers import register_format
@@ -192,7 +192,7 @@ def _write_cells(f, cell_block, index=None):
 
     pi = np.zeros((len(cell_block), col3), dtype=np.int32)
     pi[:, :col1] = np.repeat([pre_data], len(cell_block), axis=0)
-    pi[:, col1:col2] = cell_block.data[:, pmap] + 1
+    pi[:, col1:col2] = one_based(cell_block.data[:, pmap])
     pi[:, col2:] = np.repeat([post_data], len(cell_block), axis=0)
     if index is not None:
         pi[:, i_index] = index
diff --git a/src/meshio/obj/_obj.py b/src/meshio/obj/_obj.py
index 271be7e..ba53c40 100644
--- a/src/meshio/obj/_obj.py
+++ b/src/meshio/obj/_obj.py
@@ -8,6 +8,7 @@ import datetime
 import numpy as np
 
 from ..__about__ import __version__
+from .._common import one_based
 from .._exceptions import ReadError, WriteError
 from .._files import open_file
 from .._helpers import register_format
@@ -132,8 +133,8 @@ def write(filename, mesh):
 
         for cell_block in mesh.cells:
             fmt = "f " + " ".join(["{}"] * cell_block.data.shape[1]) + "\n"
-            for c in cell_block.data:
-                f.write(fmt.format(*(c + 1)))
+            for c in one_based(cell_block.data):
+                f.write(fmt.format(*c))
 
 
 register_format("obj", [".obj"], read, {"obj": write})
diff --git a/src/meshio/tecplot/_tecplot.py b/src/meshio/tecplot/_tecplot.py
index ae0b783..1c7aa68 100644
--- a/src/meshio/tecplot/_tecplot.py
+++ b/src/meshio/tecplot/_tecplot.py
@@ -7,7 +7,7 @@ I/O for Tecplot ASCII data format, cf.
 import numpy as np
 
 from ..__about__ import __version__ as version
-from .._common import num_nodes_per_cell, warn
+from .._common import num_nodes_per_cell, one_based, warn
 from .._exceptions import ReadError, WriteError
 from .._files import open_file
 from .._helpers import register_format
@@ -502,8 +502,8 @@ def write(filename, mesh):
             _write_table(f, arr)
 
         # CellBlock
-        for cell in cells:
-            f.write(" ".join(str(c) for c in cell + 1) + "\n")
+        for cell in one_based(cells):
+            f.write(" ".join(str(c) for c in cell) + "\n")
 
 
 def _write_table(f, data, ncol=20):
diff --git a/src/meshio/ugrid/_ugrid.py b/src/meshio/ugrid/_ugrid.py
index 24c7f6a..f7b85e9 100644
--- a/src/meshio/ugrid/_ugrid.py
+++ b/src/meshio/ugrid/_ugrid.py
@@ -10,7 +10,7 @@ Node ordering described in
 
 import numpy as np
 
-from .._common import _pick_first_int_data, warn
+from .._common import _pick_first_int_data, one_based, warn
 from .._exceptions import ReadError
 from .._files import fromfile, open_file
 from .._helpers import register_format
@@ -232,7 +232,7 @@ def _write_buffer(f, file_type, mesh):
             continue
         c = mesh.cells[ugrid_meshio_id[key]]
         # UGRID is one-based
-        _write_section(f, file_type, c.data + 1, itype)
+        _write_section(f, file_type, one_based(c.data), itype)
 
     # write boundary tags
     for key in ["triangle", "quad"]:
@@ -267,7 +267,7 @@ def _write_buffer(f, file_type, mesh):
             continue
         c = mesh.cells[ugrid_meshio_id[key]]
         # UGRID is one-based
-        out = c.data + 1
+        out = one_based(c.data)
         if c.type == "pyramid":
             out = out[:, [1, 0, 4, 2, 3]]
         _write_section(f, file_type, out, itype)
-- 
2.43.0


From 744b7de84c347f34f146cbfb0a7c15eb82e4f0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:13 +0000
Subject: [PATCH 79/90] fix: xdmf: small integer data could not be written in
 XML

---
 src/meshio/xdmf/common.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/meshio/xdmf/common.py b/src/meshio/xdmf/common.py
index 1d5de97..5fe7890 100644
--- a/src/meshio/xdmf/common.py
+++ b/src/meshio/xdmf/common.py
@@ -19,6 +19,10 @@ numpy_to_xdmf_dtype = {
 xdmf_to_numpy_type = {v: k for k, v in numpy_to_xdmf_dtype.items()}
 
 dtype_to_format_string = {
+    "int8": "%d",
+    "int16": "%d",
+    "uint8": "%d",
+    "uint16": "%d",
     "int32": "%d",
     "int64": "%d",
     "uint32": "%d",
-- 
2.43.0


From 7ef3daee4cfbaf1b0c03cd55d3f58ad168839647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:55 +0000
Subject: [PATCH 80/90] fix: hmf: several cell blocks were not read back, or in
 another order

---
 src/meshio/hmf/_hmf.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/meshio/hmf/_hmf.py b/src/meshio/hmf/_hmf.py
index ebcdfe0..ac0b80b 100644
--- a/src/meshio/hmf/_hmf.py
+++ b/src/meshio/hmf/_hmf.py
@@ -19,14 +19,14 @@ def read(filename):
         grid = domain["grid"]
 
         points = None
-        cells = {}
+        topologies = {}
         point_data = {}
         cell_data_raw = {}
 
         for key, value in grid.items():
             if key[:8] == "Topology":
                 cell_type = value.attrs["TopologyType"]
-                cells[xdmf_to_meshio_type[cell_type]] = value[()]
+                topologies[key] = (xdmf_to_meshio_type[cell_type], value[()])
 
             elif key == "Geometry":
                 # TODO is GeometryType really needed?
@@ -42,6 +42,11 @@ def read(filename):
                 for name, na in value.items():
                     point_data[name] = na[()]
 
+        # in the order in which they were written, Topology2 before Topology10
+        cells = [
+            meshio.CellBlock(*topologies[key])
+            for key in sorted(topologies, key=lambda key: (len(key), key))
+        ]
         cell_data = cell_data_from_raw(cells, cell_data_raw)
 
         return meshio.Mesh(
-- 
2.43.0


From 7142551769ba63b52318afab8c583232c803f0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:37 +0000
Subject: [PATCH 81/90] fix: vtk: cell data was dropped when reading polygons
 (legacy 4.2)

---
 src/meshio/vtk/_vtk_42.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/meshio/vtk/_vtk_42.py b/src/meshio/vtk/_vtk_42.py
index 321df39..b13a65a 100644
--- a/src/meshio/vtk/_vtk_42.py
+++ b/src/meshio/vtk/_vtk_42.py
@@ -529,7 +529,6 @@ def translate_cells(connectivity, types, cell_data_raw):
         if not np.all(numnodes == connectivity[offsets]):
             raise ReadError()
 
-        # TODO: cell_data
         for idx, vtk_cell_type in enumerate(types):
             start = offsets[idx] + 1
 
@@ -554,6 +553,9 @@ def translate_cells(connectivity, types, cell_data_raw):
             else:
                 # open up a new cell block
                 cells.append((cell_type, [cell]))
+
+        ends = np.cumsum([len(cell_block[1]) for cell_block in cells])
+        cell_data = {name: np.split(d, ends[:-1]) for name, d in cell_data_raw.items()}
     else:
         # Infer offsets from the cell types. This is much faster than manually going
         # through the data array. Slight disadvantage: This doesn't work for cells with
-- 
2.43.0


From 72252afd05af596c1abc000dace3f630cdfcd395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:53 +0000
Subject: [PATCH 82/90] fix: tetgen: only the first block of tetrahedra was
 read back, data of other blocks was mixed up

---
 src/meshio/tetgen/_tetgen.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/meshio/tetgen/_tetgen.py b/src/meshio/tetgen/_tetgen.py
index 0323272..284ea0e 100644
--- a/src/meshio/tetgen/_tetgen.py
+++ b/src/meshio/tetgen/_tetgen.py
@@ -161,13 +161,18 @@ def write(filename, mesh, float_fmt=".16e"):
         fh.write(f"# This file was created by meshio v{__version__}\n")
         if nattr > 0:
             fh.write("# attribute names: {}\n".format(", ".join(attr_keys)))
-        for id, c in enumerate(filter(lambda c: c.type == "tetra", mesh.cells)):
-            data = c.data
-            fh.write(f"{data.shape[0]} {4} {nattr}\n")
-            fmt = " ".join((5 + nattr) * ["{}"]) + "\n"
-            for k, tet in enumerate(data):
+        # all blocks of tetrahedra go into one list
+        num_tets = sum(len(c.data) for c in mesh.cells if c.type == "tetra")
+        fh.write(f"{num_tets} {4} {nattr}\n")
+        fmt = " ".join((5 + nattr) * ["{}"]) + "\n"
+        idx = 0
+        for id, c in enumerate(mesh.cells):
+            if c.type != "tetra":
+                continue
+            for k, tet in enumerate(c.data):
                 data = list(tet[:4]) + [mesh.cell_data[key][id][k] for key in attr_keys]
-                fh.write(fmt.format(k, *data))
+                fh.write(fmt.format(idx, *data))
+                idx += 1
 
 
 register_format("tetgen", [".ele", ".node"], read, {"tetgen": write})
-- 
2.43.0


From 2cdb5b65d6559ec4a7abfcf19083dc66b76429bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:53 +0000
Subject: [PATCH 83/90] fix: dolfin: cell data of several blocks, of names with
 dots and of files with special characters in the name

---
 src/meshio/dolfin/_dolfin.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/meshio/dolfin/_dolfin.py b/src/meshio/dolfin/_dolfin.py
index e43dbd5..0a4e2c1 100644
--- a/src/meshio/dolfin/_dolfin.py
+++ b/src/meshio/dolfin/_dolfin.py
@@ -94,7 +94,7 @@ def _read_cell_data(filename):
     for f in os.listdir(dir_name):
         # Check if there are files by the name "<filename>_*.xml"; if yes,
         # extract the * pattern and make it the name of the data set.
-        out = re.match(f"{basename}_([^\\.]+)\\.xml", f)
+        out = re.fullmatch(f"{re.escape(basename)}_(.+)\\.xml", f)
         if not out:
             continue
         name = out.group(1)
@@ -229,11 +229,12 @@ def write(filename, mesh):
     _write_mesh(filename, mesh.points, cell_type, mesh.cells)
 
     for name, lst in mesh.cell_data.items():
-        for data in lst:
-            fname = os.path.splitext(filename)[0]
-            cell_data_filename = f"{fname}_{name}.xml"
-            dim = 2 if mesh.points.shape[1] == 2 or all(mesh.points[:, 2] == 0) else 3
-            _write_cell_data(cell_data_filename, dim, np.array(data))
+        # one file for all blocks of the cell type that is written
+        data = [d for c, d in zip(mesh.cells, lst) if c.type == cell_type]
+        fname = os.path.splitext(filename)[0]
+        cell_data_filename = f"{fname}_{name}.xml"
+        dim = 2 if mesh.points.shape[1] == 2 or all(mesh.points[:, 2] == 0) else 3
+        _write_cell_data(cell_data_filename, dim, np.concatenate(data))
 
 
 register_format("dolfin-xml", [".xml"], read, {"dolfin-xml": write})
-- 
2.43.0


From 1389553e43d27aca8ae6e5b9d4a0b973919d8b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:52 +0000
Subject: [PATCH 84/90] fix: read COLOR_SCALARS of ASCII VTK files as text, and
 don't let a LOOKUP_TABLE change the number of data items

---
 src/meshio/vtk/_vtk_42.py | 16 ++++++++++------
 src/meshio/vtk/_vtk_51.py | 16 ++++++++++------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/meshio/vtk/_vtk_42.py b/src/meshio/vtk/_vtk_42.py
index b13a65a..52c07ad 100644
--- a/src/meshio/vtk/_vtk_42.py
+++ b/src/meshio/vtk/_vtk_42.py
@@ -206,18 +206,22 @@ def _read_section(f, info):
         info.num_items = int(info.split[1])
 
     elif info.section == "LOOKUP_TABLE":
-        info.num_items = int(info.split[2])
-        fromfile(f, count=info.num_items * 4, sep=" ", dtype=float)
-        # rgba = data.reshape((info.num_items, 4))
+        # keep info.num_items, it belongs to the active POINT/CELL_DATA
+        num_items = int(info.split[2])
+        if info.is_ascii:
+            fromfile(f, count=num_items * 4, sep=" ", dtype=float)
+        else:
+            fromfile(f, count=num_items * 4, dtype=np.ubyte)
+        # rgba = data.reshape((num_items, 4))
 
     elif info.section == "COLOR_SCALARS":
         nValues = int(info.split[2])
         # re-use num_items from active POINT/CELL_DATA
         num_items = info.num_items
-        dtype = np.ubyte
         if info.is_ascii:
-            dtype = float
-        fromfile(f, count=num_items * nValues, dtype=dtype)
+            fromfile(f, count=num_items * nValues, sep=" ", dtype=float)
+        else:
+            fromfile(f, count=num_items * nValues, dtype=np.ubyte)
 
 
 def _read_subsection(f, info):
diff --git a/src/meshio/vtk/_vtk_51.py b/src/meshio/vtk/_vtk_51.py
index 0233ce1..6063bf1 100644
--- a/src/meshio/vtk/_vtk_51.py
+++ b/src/meshio/vtk/_vtk_51.py
@@ -179,18 +179,22 @@ def _read_section(f, info):
         info.num_items = int(info.split[1])
 
     elif info.section == "LOOKUP_TABLE":
-        info.num_items = int(info.split[2])
-        fromfile(f, count=info.num_items * 4, sep=" ", dtype=float)
-        # rgba = data.reshape((info.num_items, 4))
+        # keep info.num_items, it belongs to the active POINT/CELL_DATA
+        num_items = int(info.split[2])
+        if info.is_ascii:
+            fromfile(f, count=num_items * 4, sep=" ", dtype=float)
+        else:
+            fromfile(f, count=num_items * 4, dtype=np.ubyte)
+        # rgba = data.reshape((num_items, 4))
 
     elif info.section == "COLOR_SCALARS":
         nValues = int(info.split[2])
         # re-use num_items from active POINT/CELL_DATA
         num_items = info.num_items
-        dtype = np.ubyte
         if info.is_ascii:
-            dtype = float
-        fromfile(f, count=num_items * nValues, dtype=dtype)
+            fromfile(f, count=num_items * nValues, sep=" ", dtype=float)
+        else:
+            fromfile(f, count=num_items * nValues, dtype=np.ubyte)
 
 
 def _read_subsection(f, info):
-- 
2.43.0


From e0ffec404f50d0dbb62b4145c849c66ab60f6063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:52 +0000
Subject: [PATCH 85/90] fix: don't share the row length between concurrent
 reads of ASCII STL files

---
 src/meshio/stl/_stl.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/meshio/stl/_stl.py b/src/meshio/stl/_stl.py
index e37797e..71b92a4 100644
--- a/src/meshio/stl/_stl.py
+++ b/src/meshio/stl/_stl.py
@@ -54,7 +54,11 @@ def iter_loadtxt(
     dtype=float,
     usecols: tuple[int] | None = None,
 ):
+    # The row length belongs to this call; other threads may be reading, too.
+    rowlength = 3
+
     def iter_func():
+        nonlocal rowlength
         items = None
         for _ in range(skiprows):
             try:
@@ -73,13 +77,12 @@ def iter_loadtxt(
                 yield dtype(items[idx])
 
         if items is None:
-            iter_loadtxt.rowlength = 3
             return
 
-        iter_loadtxt.rowlength = len(items) if usecols is None else len(usecols)
+        rowlength = len(items) if usecols is None else len(usecols)
 
     data = np.fromiter(iter_func(), dtype=dtype)
-    return data.reshape((-1, iter_loadtxt.rowlength))
+    return data.reshape((-1, rowlength))
 
 
 def _read_ascii(f):
-- 
2.43.0


From 19c6025161150aa9bd89b10dd111e784c146a4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:52 +0000
Subject: [PATCH 86/90] fix: declare the Tecplot zone type of the cells that
 are written, not of the skipped 2D cells

---
 src/meshio/tecplot/_tecplot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/meshio/tecplot/_tecplot.py b/src/meshio/tecplot/_tecplot.py
index 1c7aa68..a0c3bd6 100644
--- a/src/meshio/tecplot/_tecplot.py
+++ b/src/meshio/tecplot/_tecplot.py
@@ -422,6 +422,7 @@ def write(filename, mesh):
         if len(np.unique(num_dims)) == 2:
             warn("Mesh contains 2D and 3D cells. Skipping 2D cells.")
             cell_blocks = [ic for ic, ndim in zip(cell_blocks, num_dims) if ndim == 3]
+            num_dims = [3]
 
         # Convert 2D cells to quads / 3D cells to hexahedra
         zone_type = "FEQUADRILATERAL" if num_dims[0] == 2 else "FEBRICK"
-- 
2.43.0


From 877ed0f9c025d78624f558ae0b17af33e4da9db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:52 +0000
Subject: [PATCH 87/90] fix: print messages with names that look like console
 markup

---
 src/meshio/_common.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/meshio/_common.py b/src/meshio/_common.py
index d2327af..604bf0f 100644
--- a/src/meshio/_common.py
+++ b/src/meshio/_common.py
@@ -4,6 +4,7 @@ from xml.etree import ElementTree as ET
 
 import numpy as np
 from rich.console import Console
+from rich.markup import escape
 
 # See <https://github.com/nschloe/meshio/wiki/Node-ordering-in-cells> for the node
 # ordering.
@@ -131,18 +132,18 @@ def _pick_first_int_data(data):
 
 
 def info(string, highlight: bool = True) -> None:
-    Console(stderr=True).print(f"[bold]Info:[/bold] {string}", highlight=highlight)
+    Console(stderr=True).print(f"[bold]Info:[/bold] {escape(str(string))}", highlight=highlight)
 
 
 def warn(string, highlight: bool = True) -> None:
     Console(stderr=True).print(
-        f"[yellow][bold]Warning:[/bold] {string}[/yellow]", highlight=highlight
+        f"[yellow][bold]Warning:[/bold] {escape(str(string))}[/yellow]", highlight=highlight
     )
 
 
 def error(string, highlight: bool = True) -> None:
     Console(stderr=True).print(
-        f"[red][bold]Error:[/bold] {string}[/red]", highlight=highlight
+        f"[red][bold]Error:[/bold] {escape(str(string))}[/red]", highlight=highlight
     )
 
 
-- 
2.43.0


From cc3098ecb5e354d37b809e274d6a5887d17fd15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:33 +0000
Subject: [PATCH 88/90] fix: read dolfin mesh functions in a fixed order, not
 in directory order

---
 src/meshio/dolfin/_dolfin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/dolfin/_dolfin.py b/src/meshio/dolfin/_dolfin.py
index 0a4e2c1..23b401d 100644
--- a/src/meshio/dolfin/_dolfin.py
+++ b/src/meshio/dolfin/_dolfin.py
@@ -91,7 +91,7 @@ def _read_cell_data(filename):
 
     # Loop over all files in the same directory as `filename`.
     basename = pathlib.Path(filename).stem
-    for f in os.listdir(dir_name):
+    for f in sorted(os.listdir(dir_name)):
         # Check if there are files by the name "<filename>_*.xml"; if yes,
         # extract the * pattern and make it the name of the data set.
         out = re.fullmatch(f"{re.escape(basename)}_(.+)\\.xml", f)
-- 
2.43.0


From e3e3a30a1d0b536a67fd5f9b0843fbab3b0058ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:33 +0000
Subject: [PATCH 89/90] fix: refuse dolfin files that miss vertices, cells or
 entities instead of returning uninitialised memory

---
 src/meshio/dolfin/_dolfin.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/meshio/dolfin/_dolfin.py b/src/meshio/dolfin/_dolfin.py
index 23b401d..9e6827d 100644
--- a/src/meshio/dolfin/_dolfin.py
+++ b/src/meshio/dolfin/_dolfin.py
@@ -16,6 +16,13 @@ from .._helpers import register_format
 from .._mesh import Mesh
 
 
+def _check_complete(is_set, what):
+    if not is_set.all():
+        raise ReadError(
+            f"Expected {len(is_set)} {what}, got only {np.count_nonzero(is_set)}"
+        )
+
+
 def _read_mesh(filename):
     dolfin_to_meshio_type = {"triangle": ("triangle", 3), "tetrahedron": ("tetra", 4)}
 
@@ -24,6 +31,8 @@ def _read_mesh(filename):
     # See <https://stackoverflow.com/a/326541/353337>.
     dim = None
     points = None
+    points_set = np.zeros(0, dtype=bool)
+    cells_set = np.zeros(0, dtype=bool)
     keys = None
     cell_type = None
     num_nodes_per_cell = None
@@ -49,6 +58,7 @@ def _read_mesh(filename):
             if dim is None:
                 raise ReadError("Expected `mesh` before `vertices`")
             points = np.empty((int(elem.attrib["size"]), dim))
+            points_set = np.zeros(len(points), dtype=bool)
             keys = ["x", "y"]
             if dim == 3:
                 keys += ["z"]
@@ -57,6 +67,7 @@ def _read_mesh(filename):
                 raise ReadError("Expected `vertices` before `vertex`")
             k = int(elem.attrib["index"])
             points[k] = [elem.attrib[key] for key in keys]
+            points_set[k] = True
         elif elem.tag == "cells":
             if cell_type is None or num_nodes_per_cell is None:
                 raise ReadError("Expected `mesh` before `cells`")
@@ -66,16 +77,21 @@ def _read_mesh(filename):
                     np.empty((int(elem.attrib["size"]), num_nodes_per_cell), dtype=int),
                 )
             ]
+            cells_set = np.zeros(len(cells[0][1]), dtype=bool)
         elif elem.tag in ["triangle", "tetrahedron"]:
             k = int(elem.attrib["index"])
             assert cells is not None
             assert cell_tags is not None
             cells[0][1][k] = [elem.attrib[t] for t in cell_tags]
+            cells_set[k] = True
         else:
             warn(f"Unknown entry {elem.tag}. Ignoring.")
 
         elem.clear()
 
+    _check_complete(points_set, "vertices")
+    _check_complete(cells_set, "cells")
+
     return points, cells, cell_type
 
 
@@ -113,11 +129,14 @@ def _read_cell_data(filename):
         size = int(mesh_function.attrib["size"])
         dtype = dolfin_type_to_numpy_type[mesh_function.attrib["type"]]
         data = np.empty(size, dtype=dtype)
+        data_set = np.zeros(size, dtype=bool)
         for child in mesh_function:
             if child.tag != "entity":
                 raise ReadError()
             idx = int(child.attrib["index"])
             data[idx] = child.attrib["value"]
+            data_set[idx] = True
+        _check_complete(data_set, f"entities in {f}")
 
         if name not in cell_data:
             cell_data[name] = []
-- 
2.43.0


From 78755eb10f67b0c2376cd523f96c9b5377d66eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:33 +0000
Subject: [PATCH 90/90] fix: keep the file position right in the su2 reader
 when elements come before points

---
 src/meshio/su2/_su2.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/meshio/su2/_su2.py b/src/meshio/su2/_su2.py
index 00e7d89..31a2d60 100644
--- a/src/meshio/su2/_su2.py
+++ b/src/meshio/su2/_su2.py
@@ -116,7 +116,9 @@ def read_buffer(f):
             # translate_cells function from vtk reader
 
             num_elems = int(rest_of_line)
-            gen = islice(f, num_elems)
+            # use readline(), not the file's iterator: the iterator disables tell(), and
+            # fromfile() needs the position for the points that may follow
+            gen = islice(iter(f.readline, ""), num_elems)
 
             # some files has an extra int column while other not
             # We do not need it so make sure we will skip it
-- 
2.43.0

