"""What each meshio format documents as storable, and the reference model.

A configuration is one (format, extension, writer options) triple plus the part
of the meshio data model it is able to hold.  ``compare(cfg, W, R)`` is the
small executable reference: it states what a mesh ``R`` read back from storage
must equal when ``W`` was the mesh written.
"""
import numpy as np

from . import special

ALLF = ["f4", "f8"]
ALLI = ["i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8"]
VTKT = ["vertex", "line", "line3", "line4", "triangle", "triangle6", "quad", "quad8", "quad9", "tetra", "tetra10",
        "hexahedron", "hexahedron20", "hexahedron27", "wedge", "wedge18", "pyramid"]
POLYG = ["polygon:3", "polygon:5", "polygon:7"]
LAGR = ["VTK_LAGRANGE_CURVE:5", "VTK_LAGRANGE_TRIANGLE:10", "VTK_LAGRANGE_QUADRILATERAL:16", "VTK_LAGRANGE_TETRAHEDRON:10", "VTK_LAGRANGE_TETRAHEDRON:20", "VTK_LAGRANGE_HEXAHEDRON:27",
        "VTK_LAGRANGE_WEDGE:18", "VTK_LAGRANGE_PYRAMID:14"]
BASIC = ["vertex", "line", "triangle", "quad", "tetra", "pyramid", "wedge", "hexahedron"]


class Cfg:
    def __init__(self, name, fmt, ext, types, kw=None, dims=(2, 3), outdim=3, pdts=("f8", "f8", "f4"), idts=("i8", "i8", "i4", "u8", "u4", "i2", "u1"),
                 single_type=False, unique_types=False, single_block=False, min_blocks=0, min_cells=1, min_pts=1,
                 homdim=False, types2d=None, empty=False, wild=True, big=0, distinct=False, cover=False,
                 pd=None, cd=None, ptags=(), ctags=(), ps=False, cs=False, empty_sets=False, odd_names=False,
                 disjoint_names=False, order="seq", rtol=0.0, atol=0.0, slow=False, extra_pd=(), extra_cd=(),
                 zpad=False, data_rtol=None, geom=False, flat=False, companions=(), read_ext=None, renames=None,
                 exact_blocks=False, reader=True, drop_unused=False, timestamped=False, comp1=False,
                 lib="py", read_fmt=None, vpad=False, coarse=False, pos=False, cs_single=False, anyorder=False, mixed_types=None, ctag_types=None, f4tol=0.0, rowset=False, tiny=False, types3d=None, need=None, special=None, lays=("strided", "neg", "ro", "be"), extra=False, direct=None, foreign=None):
        self.__dict__.update({k: v for k, v in locals().items() if k != "self"})
        self.kw = dict(kw or {})
        self.dims = tuple(dims)
        self.extra_pd = set(extra_pd)
        self.extra_cd = set(extra_cd)
        self.data_rtol = rtol if data_rtol is None else data_rtol
        self.binary = bool(self.kw.get("binary", False)) or lib != "py"


def C123(dim):
    return [0, 1, 2, 3, 9]


CFGS = {}
ALL = {}  # CFGS, and further configurations which only some checks run
READ = {}  # CFGS, others, and files as other programs write them, for the checks which only read
ODD = ["x y", "a.b", "\u00fc", "p<q", "a&b", 'q"t', "100"]


def add(*a, **k):
    c = Cfg(*a, **k)
    ALL[c.name] = c
    if "float_fmt" not in c.kw:
        READ[c.name] = c
    if not c.extra and not c.foreign:
        CFGS[c.name] = c
    return c


# ---- VTK family
for b, tag in ((True, "bin"), (False, "asc")):
    add(f"vtk42-{tag}", "vtk42", ".vtk", VTKT + POLYG, {"binary": b}, pdts=ALLF, pd=(ALLF + ALLI, [0, 1, 2, 3]), cd=(ALLF + ALLI, [0, 1, 2, 3]), comp1=True, odd_names=[x for x in ODD if " " not in x],
        read_fmt="vtk", zpad=True, big=64, vpad=True)
    add(f"vtk51-{tag}", "vtk", ".vtk", VTKT + POLYG + LAGR, {"binary": b}, pdts=ALLF, pd=(ALLF + ALLI, [0, 1, 2, 3]), cd=(ALLF + ALLI, [0, 1, 2, 3]), comp1=True, odd_names=[x for x in ODD if " " not in x],
        read_fmt="vtk", zpad=True, big=64, vpad=True)
for comp in ("zlib", "lzma", None):
    for ht in (None, "UInt64"):
        add(f"vtu-{comp}-{ht or 'UInt32'}", "vtu", ".vtu", VTKT + POLYG + LAGR, {"binary": True, "compression": comp, **({"header_type": ht} if ht else {})},
            pdts=ALLF, pd=(ALLF + ALLI, [0, 1, 2, 3, 9]), cd=(ALLF + ALLI, [0, 1, 2, 3, 9]), zpad=True, big=64, odd_names=ODD)
add("vtu-ascii", "vtu", ".vtu", VTKT + POLYG + LAGR, {"binary": False}, rtol=1e-10, pdts=ALLF, pd=(ALLF + ALLI, [0, 1, 2, 3, 9]), cd=(ALLF + ALLI, [0, 1, 2, 3, 9]), zpad=True, big=64, odd_names=ODD)
# ---- XDMF
XT = ["vertex", "line", "line3", "triangle", "triangle6", "quad", "quad8", "quad9", "tetra", "tetra10", "hexahedron", "hexahedron20", "hexahedron27",
      "wedge", "wedge18", "pyramid", "hexahedron64", "hexahedron125"]
for df, comp in (("XML", None), ("Binary", None), ("HDF", "gzip"), ("HDF", None)):
    kw = {"data_format": df}
    if df == "HDF":
        kw["compression"] = comp
        if comp is None:
            kw["compression_opts"] = None
    dts = ALLF + ALLI
    add(f"xdmf-{df}{'-gz' if comp else ''}", "xdmf", ".xdmf", XT, kw, pdts=ALLF, outdim="same", pd=(dts, [0, 1, 2, 3, 9]), cd=(dts, [0, 1, 2, 3, 9]), odd_names=ODD, 
        companions={"XML": (), "Binary": ("bin",), "HDF": ("h5",)}[df], big=64, lib="h5" if df == "HDF" else "py", f4tol=1e-7 if df == "XML" else 0.0)
# ---- gmsh
GT = ["line8", "quad49", "triangle28", "line5", "line6", "line11", "triangle15", "triangle21", "quad25", "tetra35", "tetra56", "wedge40", "hexahedron125", "vertex", "line", "line3", "line4", "triangle", "triangle6", "triangle10", "quad", "quad8", "quad9", "quad16", "tetra", "tetra10", "tetra20", "hexahedron",
      "hexahedron20", "hexahedron27", "hexahedron64", "wedge", "wedge18", "pyramid", "pyramid14"]
for b, tag in ((True, "bin"), (False, "asc")):
    add(f"gmsh22-{tag}", "gmsh22", ".msh", GT, {"binary": b}, read_fmt="gmsh", pd=(["f8"], [0, 1, 3, 9]), cd=(["f8"], [0, 1, 3, 9]), comp1=True, odd_names=[x for x in ODD if '"' not in x],
        ctags=[["gmsh:physical", 1, 5], ["gmsh:geometrical", 1, 5]], extra_cd=("gmsh:physical", "gmsh:geometrical"), zpad=True, special="gmsh")
    add(f"gmsh41-{tag}", "gmsh", ".msh", GT, {"binary": b}, single_block=True, read_fmt="gmsh", pd=(["f8"], [0, 1, 3, 9]), cd=(["f8"], [0, 1, 3, 9]), comp1=True, odd_names=[x for x in ODD if '"' not in x],
        extra_cd=("gmsh:physical", "gmsh:geometrical"), extra_pd=("gmsh:dim_tags",), zpad=True, special="gmsh41")
# ---- HDF5 / netCDF based
for comp in ("gzip", None):
    kw = {"compression": comp, "compression_opts": 4 if comp else None}
    t = "-gz" if comp else ""
    add(f"hmf{t}", "hmf", ".hmf", XT, kw, outdim="same", pdts=ALLF, pd=(ALLF + ALLI, [0, 1, 2, 3, 9]), cd=(ALLF + ALLI, [0, 1, 2, 3, 9]), lib="h5", min_blocks=1, big=64, odd_names=ODD)
    add(f"cgns{t}", "cgns", ".cgns", ["tetra"], kw, dims=(3,), single_block=True, min_blocks=1, lib="h5")
    add(f"h5m{t}", "h5m", ".h5m", ["line", "triangle", "tetra"], kw, dims=(3,), unique_types=True, pd=(["f8"], [0]), order="type", lib="h5", min_blocks=1, timestamped=True, extra_pd=("GLOBAL_ID",), extra_cd=("GLOBAL_ID",))
add("med", "med", ".med", ["vertex", "line", "line3", "triangle", "triangle6", "quad", "quad8", "tetra", "tetra10", "hexahedron", "hexahedron20", "pyramid", "wedge"],
    outdim="same", unique_types=True, pd=(["f8"], [0, 1, 2, 3]), cd=(["f8"], [0, 1, 2, 3]), comp1=True, order="type", lib="h5", min_blocks=1, disjoint_names=True,
    ptags=[["point_tags", 0, 4]], ctags=[["cell_tags", -4, 0]], special="med")
add("exodus", "exodus", ".e", ["vertex", "line", "line3", "quad", "quad8", "quad9", "triangle", "triangle6", "hexahedron", "hexahedron20", "hexahedron27", "tetra", "tetra10", "pyramid", "wedge"],
    dims=(2, 3), outdim=3, zpad=True, pd=(["f8"], [0]), ps=True, lib="nc", min_blocks=1, timestamped=True)
# ---- text formats
add("abaqus", "abaqus", ".inp", ["line", "line3", "quad", "quad8", "quad9", "triangle", "triangle6", "hexahedron", "hexahedron20", "tetra", "tetra10", "wedge"],
    outdim=3, zpad=True, ps=True, cs=True, min_blocks=1)
for b, tag in ((True, "bin"), (False, "asc")):
    add(f"ansys-{tag}", "ansys", ".msh", ["triangle", "quad", "tetra", "pyramid", "wedge", "hexahedron"], {"binary": b}, outdim="same", min_blocks=1)
    add(f"flac3d-{tag}", "flac3d", ".f3grid", ["tetra", "pyramid", "wedge", "hexahedron"], {"binary": b}, dims=(3,), min_blocks=1, timestamped=True, extra_cd=("cell_ids",), anyorder=True, special="flac3d")
    add(f"ply-{tag}", "ply", ".ply", ["triangle", "quad", "line"], {"binary": b}, dims=(3,), idts=("i8", "i8", "i4"), pdts=ALLF, pd=(["f4", "f8", "i4", "u1"], [0]), cd=None, timestamped=True, min_blocks=1)
    add(f"stl-{tag}", "stl", ".stl", ["triangle"], {"binary": b}, dims=(3,), pdts=("f4",), geom=True, distinct=True, wild=False, min_blocks=1, extra_cd=("facet_normals",))
add("avsucd", "avsucd", ".avs", BASIC, zpad=True, pd=(["f8"], [0, 1, 2, 3]), cd=(["f8"], [0, 1, 2, 3]), comp1=True, ctags=[["avsucd:material", 1, 5]], extra_cd=("avsucd:material",), min_blocks=1, data_rtol=1e-13)
add("dolfin", "dolfin-xml", ".xml", ["triangle", "tetra"], dims=(2, 3), outdim="same", single_type=True, min_blocks=1, types2d=["triangle"])
add("dolfin-cd", "dolfin-xml", ".xml", ["triangle", "tetra"], dims=(2, 3), outdim="same", single_type=True, min_blocks=1, types2d=["triangle"], cd=(["f8", "i8", "i4", "u8"], [0]), odd_names=["x y", "a.b", "\u00fc", "a+b"], extra=True)
add("mdpa", "mdpa", ".mdpa", ["vertex", "line3", "hexahedron20", "hexahedron27", "line", "triangle", "quad", "tetra", "hexahedron", "wedge", "triangle6", "quad9", "tetra10", "quad8"], zpad=True, min_blocks=1)
for ext, tag in ((".mesh", "asc"), (".meshb", "bin")):
    add(f"medit-{tag}", "medit", ext, ["line", "triangle", "quad", "tetra", "pyramid", "wedge", "hexahedron"], outdim="same", ptags=[["medit:ref", 0, 9]], ctags=[["medit:ref", 0, 9]],
        extra_pd=("medit:ref",), extra_cd=("medit:ref",), min_blocks=1, pdts=ALLF)
NT = ["vertex", "line", "triangle", "triangle6", "quad", "quad8", "quad9", "tetra", "tetra10", "pyramid", "wedge", "hexahedron", "hexahedron20"]
for pf in ("free", "fixed-small", "fixed-large"):
    for cf in ("fixed-small",):
        add(f"nastran-{pf}-{cf}", "nastran", ".bdf", NT, {"point_format": pf, "cell_format": cf}, zpad=True, rtol=1e-11, atol=0.0, min_blocks=1,
            wild=False, coarse=True, ptags=[["nastran:ref", 1, 9]], ctags=[["nastran:ref", 1, 9]])
        if pf == "fixed-small":
            CFGS[f"nastran-{pf}-{cf}"].rtol, CFGS[f"nastran-{pf}-{cf}"].atol = 0.0, 2e-5
NGT = ["vertex", "line", "triangle", "triangle6", "quad", "quad8", "tetra", "pyramid", "wedge", "hexahedron", "tetra10", "hexahedron20"]
add("netgen", "netgen", ".vol", NGT, outdim="same", order="type", ctags=[["netgen:index", 1, 4]], extra_cd=("netgen:index",), min_blocks=1, special="netgen")
add("netgen-gz", "netgen", ".vol.gz", NGT, outdim="same", order="type", ctags=[["netgen:index", 1, 4]], extra_cd=("netgen:index",), min_blocks=1, special="netgen", lib="gz")
add("neuroglancer", "neuroglancer", "", ["triangle"], dims=(3,), pdts=("f4",), min_blocks=1, wild=False, read_fmt="neuroglancer")
add("obj", "obj", ".obj", ["triangle", "quad"], dims=(3,), min_blocks=1, timestamped=True, extra_cd=("obj:group_ids",), special="obj", pd=([], []))
add("off", "off", ".off", ["triangle"], zpad=True, min_blocks=1)
PT = ["triangle6", "quad9", "tetra10", "hexahedron27", "vertex", "line", "line3", "triangle", "quad", "quad8", "tetra", "hexahedron", "hexahedron20", "pyramid", "wedge"]
add("permas", "permas", ".dato", PT, zpad=True, min_blocks=1)
add("permas-gz", "permas", ".dato.gz", PT, zpad=True, min_blocks=1, lib="gz")
add("su2", "su2", ".su2", ["line", "triangle", "quad", "tetra", "hexahedron", "wedge", "pyramid"], outdim="same", order="type", min_blocks=1, types2d=["line", "triangle", "quad"], extra_cd=("su2:tag",), ctags=[["su2:tag", 1, 3]], ctag_types={2: ("line",), 3: ("triangle", "quad")}, rowset=True, types3d=["triangle", "quad", "tetra", "hexahedron", "wedge", "pyramid"], need={2: ["triangle", "quad"], 3: ["tetra", "hexahedron", "wedge", "pyramid"]})
add("svg", "svg", ".svg", ["triangle", "quad"], dims=(2,), reader=False, min_blocks=1)
add("tecplot", "tecplot", ".dat", ["line", "triangle", "quad", "tetra", "hexahedron"], pdts=("f8",), outdim="same", single_type=True, pd=(["f8"], [0]), cd=(["f8"], [0]), min_blocks=1, disjoint_names=True)
add("tetgen", "tetgen", ".node", ["tetra"], dims=(3,), special="tetgen", pd=([], []), cd=([], []), ptags=[["tetgen:ref", 0, 5]], ctags=[["tetgen:ref", 0, 5]], min_blocks=1, companions=("ele",))
for e in ("", ".b8", ".b4", ".lb8", ".lb4", ".b8l", ".lb8l", ".r8", ".r4", ".lr8", ".lr4"):
    add(f"ugrid{e or '-ascii'}", "ugrid", e + ".ugrid", ["triangle", "quad", "tetra", "pyramid", "wedge", "hexahedron"], dims=(3,), order="type", unique_types=True,
        ctags=[["ugrid:ref", 1, 9]], ctag_types={3: ("triangle", "quad")}, extra_cd=("ugrid:ref",), min_blocks=1, wild=bool(e), pdts=("f4",) if e.endswith("4") else ("f8", "f8", "f4") if e else ("f8",))
CFGS["ugrid-ascii"].rtol = 1e-6
add("wkt", "wkt", ".wkt", ["triangle"], pdts=("f8",), geom=True, distinct=True, wild=False, min_blocks=1, dims=(3,), outdim="same", tiny=True)


# ---- further options of the writers
for b, tag in ((True, "bin"), (False, "asc")):
    add(f"gmsh40-{tag}", "gmsh", ".msh", GT, {"binary": b, "fmt_version": "4.0"}, direct="gmsh", read_fmt="gmsh", pd=(["f8"], [0, 1, 3, 9]), cd=(["f8"], [0, 1, 3, 9]), comp1=True, min_blocks=1,
        extra_cd=("gmsh:physical", "gmsh:geometrical"), extra_pd=("gmsh:dim_tags",), zpad=True, extra=True)
for comp, b in (("zlib", True), (None, True), (None, False)):
    add(f"vtu-poly-{comp if b else 'ascii'}", "vtu", ".vtu", ["polyhedron:6", "polyhedron:8", "polyhedron:10"], {"binary": b, "compression": comp}, rtol=0.0 if b else 1e-10, pdts=ALLF,
        pd=(ALLF + ALLI, [0, 2, 3, 9]), cd=(ALLF + ALLI, [0, 2, 3, 9]), zpad=True, big=64, order="type", min_blocks=1, lays=(), extra=True)
for pf, cf in (("free", "free"), ("fixed-large", "fixed-large"), ("fixed-small", "free"), ("free", "fixed-large")):
    add(f"nastran-{pf}-{cf}", "nastran", ".nas", NT, {"point_format": pf, "cell_format": cf}, zpad=True, rtol=0.0 if pf == "fixed-small" else 1e-11, atol=2e-5 if pf == "fixed-small" else 0.0, min_blocks=1,
        wild=False, coarse=True, ptags=[["nastran:ref", 1, 9]], ctags=[["nastran:ref", 1, 9]], extra=True)
for base, ff in (("abaqus", ".17g"), ("abaqus", ".9e"), ("flac3d-asc", ".17g"), ("gmsh22-asc", ".17g"), ("gmsh41-asc", ".9e"), ("mdpa", ".17g"), ("medit-asc", ".9e"), ("netgen", ".17g"), ("netgen", ".9e"), ("tetgen", ".17g")):
    c = ALL[base]
    add(**{**{k: v for k, v in vars(c).items() if k != "binary"}, "name": f"{base}-{ff[1:]}", "kw": {**c.kw, "float_fmt": ff}, "extra": True, "rtol": 0.0 if ff == ".17g" else 1e-8, "data_rtol": 0.0})
# ---- files as other programs write them (sim/foreign.py); extra dialects of what meshio reads
for fn, fmt, ext, types, kw in (
    ("vtk_grid", "vtk", ".vtk", ["tetra"], {}), ("vtk_cells", "vtk", ".vtk", BASIC, {}), ("vtu", "vtu", ".vtu", BASIC, {}),
    ("abaqus", "abaqus", ".inp", ["triangle", "quad", "tetra", "hexahedron"], {}), ("gmsh22", "gmsh22", ".msh", BASIC, {"read_fmt": "gmsh"}), ("gmsh41", "gmsh", ".msh", BASIC, {"read_fmt": "gmsh"}),
    ("medit", "medit", ".mesh", ["line", "triangle", "quad", "tetra", "hexahedron"], {}), ("meditb", "medit", ".meshb", ["line", "triangle", "quad", "tetra", "hexahedron"], {}),
    ("nastran", "nastran", ".bdf", ["line", "triangle", "quad", "tetra", "hexahedron"], {}), ("netgen", "netgen", ".vol", ["triangle", "tetra"], {"dims": (3,)}),
    ("obj", "obj", ".obj", ["triangle", "quad"], {}), ("off", "off", ".off", ["triangle"], {}), ("ply", "ply", ".ply", ["triangle", "quad"], {}), ("stl", "stl", ".stl", ["triangle"], {}),
    ("su2", "su2", ".su2", ["triangle", "quad", "tetra", "hexahedron"], {"homdim": True}), ("tecplot", "tecplot", ".dat", ["triangle", "quad", "tetra", "hexahedron"], {"single_block": True}),
    ("tetgen", "tetgen", ".node", ["tetra"], {"dims": (3,)}), ("wkt", "wkt", ".wkt", ["triangle"], {}), ("xdmf2", "xdmf", ".xdmf", ["triangle", "quad", "tetra", "hexahedron"], {}),
    ("permas", "permas", ".dato", ["line", "triangle", "quad", "tetra", "hexahedron"], {}), ("mdpa", "mdpa", ".mdpa", ["line", "triangle", "quad", "tetra"], {}),
    ("avsucd", "avsucd", ".avs", BASIC, {}), ("flac3d", "flac3d", ".f3grid", ["tetra", "hexahedron"], {"dims": (3,)}), ("ansys", "ansys", ".msh", ["triangle", "quad", "tetra", "hexahedron"], {}),
    ("dolfin", "dolfin-xml", ".xml", ["triangle", "tetra"], {"single_block": True}),
):
    add(f"foreign-{fn}", fmt, ext, types, foreign=fn, min_blocks=1, min_pts=8, wild=False, tiny=True, lays=(), **kw)


# ---------------------------------------------------------------- comparing
def _close(a, b, rtol, atol):
    if a.shape != b.shape:
        return False
    if rtol == 0 and atol == 0:
        return bool(np.array_equal(a, b, equal_nan=a.dtype.kind == "f" and b.dtype.kind == "f"))
    return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def _pad(p, d):
    p = np.asarray(p)
    if p.ndim == 2 and p.shape[1] < d:
        p = np.column_stack([p, np.zeros((len(p), d - p.shape[1]), dtype=p.dtype)])
    return p


def _runs(mesh, data_keys):
    """Cell sequence as maximal runs of one type: [(type, conn, {key: rows})]."""
    out = []
    for k, c in enumerate(mesh.cells):
        if len(c) == 0:
            continue
        d = c.data if isinstance(c.data, np.ndarray) else None
        width = None if d is None else d.shape[1]
        dd = {key: np.asarray(mesh.cell_data[key][k]) for key in data_keys}
        if d is None:
            out.append([c.type, c.data, dd])
        elif out and out[-1][0] == c.type and isinstance(out[-1][1], np.ndarray) and out[-1][1].shape[1] == width:
            out[-1][1] = np.concatenate([out[-1][1].astype("i8"), d.astype("i8")])
            for key in data_keys:
                out[-1][2][key] = np.concatenate([out[-1][2][key], dd[key]])
        else:
            out.append([c.type, np.asarray(d).astype("i8"), dd])
    return out


def _sorted_rows(x):
    t, conn, dd = x
    keys = [np.asarray(dd[k]).astype("i8") for k in sorted(dd)] + [conn[:, j] for j in range(conn.shape[1])]
    if any(len(k) != len(conn) for k in keys):
        return x
    o = np.lexsort(keys[::-1])
    return [t, conn[o], {k: np.asarray(v)[o] for k, v in dd.items()}]


def _bytype(runs):
    acc = {}
    for t, conn, dd in runs:
        if t in acc:
            acc[t][1] = np.concatenate([acc[t][1], conn]) if isinstance(conn, np.ndarray) else list(acc[t][1]) + list(conn)
            for k in dd:
                acc[t][2][k] = np.concatenate([acc[t][2][k], dd[k]])
        else:
            acc[t] = [t, conn, dict(dd)]
    return [acc[t] for t in sorted(acc)]


FLIP = {"tetra": [0, 2, 1, 3], "pyramid": [0, 3, 2, 1, 4], "wedge": [0, 2, 1, 3, 5, 4], "hexahedron": [0, 3, 2, 1, 4, 7, 6, 5]}
# corner, and its neighbours in right-handed order
CORNER = {"tetra": [0, 1, 2, 3], "pyramid": [0, 1, 3, 4], "wedge": [0, 1, 3, 2], "hexahedron": [0, 1, 3, 4]}


def _oriented(t, cells, got, pts):
    """FLAC3D zones are right-handed: a cell is turned over if it is not."""
    p = np.asarray(pts, "f8")[cells[:, CORNER[t]]]
    with np.errstate(all="ignore"):
        e = p[:, 1:] - p[:, :1]
        det = np.einsum("ij,ij->i", e[:, 0], np.cross(e[:, 1], e[:, 2]))
        size = np.abs(e).sum(axis=(1, 2)) ** 3
        eps, top = (1e-4, 1e36) if np.asarray(pts).dtype.itemsize == 4 else (1e-9, 1e300)
        unsure = ~((np.abs(det) > eps * size) & (size < top) & (size > 1 / top))
    flip = cells[:, FLIP[t]]
    out = np.where((det > 0)[:, None], cells, flip)
    for k in np.flatnonzero(unsure):
        out[k] = flip[k] if np.array_equal(got[k], flip[k]) else cells[k]
    return out


def compare(cfg, W, R):
    """None when R is what storing W in this format must give back, else why not."""
    WP = np.asarray(W.points)
    RP = np.asarray(R.points)
    if cfg.outdim == 3:
        WP = _pad(WP, 3)
        RP = _pad(RP, 3)
    if not cfg.geom:
        if len(WP) == 0 and len(RP) == 0:
            pass
        elif WP.shape != RP.shape:
            return f"points have shape {RP.shape}, written {WP.shape}"
        elif not _close(WP.astype("f8"), RP.astype("f8"), max(cfg.rtol, cfg.f4tol if WP.dtype.str[1:] == "f4" else 0), cfg.atol):
            return "point coordinates differ from those written"
    # which data must come back
    cw = set(W.cell_data) if (cfg.cd or cfg.ctags) else set()
    cw = {k for k in cw if (cfg.cd or k in {t[0] for t in cfg.ctags})}
    for k in cw:
        if k not in R.cell_data:
            return f"cell data {k!r} missing"
    extra = set(R.cell_data) - cw - cfg.extra_cd
    if extra:
        return f"unexpected cell data {sorted(extra)}"
    try:
        for c in R.cells:
            if isinstance(c.data, np.ndarray) and len(c.data) and c.data.dtype.kind not in "iu":
                return f"connectivity of {c.type} is of type {c.data.dtype}"
        rw, rr = _runs(W, sorted(cw)), _runs(R, sorted(cw))
    except Exception as e:  # inconsistent lengths in what was read
        return f"mesh read back is not self-consistent: {e!r}"
    if cfg.order == "type":
        rw, rr = _bytype(rw), _bytype(rr)
    if cfg.ctag_types:  # tags are stored for boundary cells only
        keep = cfg.ctag_types.get(W.points.shape[1], ())
        rw = [[t, c, d if t in keep else {}] for t, c, d in rw]
        rr = [[t, c, d if t in keep else {}] for t, c, d in rr]
    if cfg.rowset:  # cells are grouped by tag: the order within a type is the format's
        rw, rr = [_sorted_rows(x) for x in rw], [_sorted_rows(x) for x in rr]
    if [x[0] for x in rw] != [x[0] for x in rr]:
        return f"cell types {[x[0] for x in rr]}, written {[x[0] for x in rw]}"
    for (t, cw_, dw), (_, cr_, dr) in zip(rw, rr):
        if cfg.geom:
            a = WP[cw_].astype("f8") if len(cw_) else np.empty((0,))
            b = RP[cr_].astype("f8") if len(cr_) else np.empty((0,))
            if not _close(a, b, cfg.rtol, cfg.atol):
                return f"coordinates of the {t} cells differ from those written"
        elif isinstance(cw_, np.ndarray):
            if cfg.anyorder and isinstance(cr_, np.ndarray) and cr_.shape == cw_.shape:
                cw_ = _oriented(t, cw_, cr_, WP)
            if not isinstance(cr_, np.ndarray) or not np.array_equal(cw_, cr_):
                return f"connectivity of {t} differs from that written"
        else:
            if not _polyeq(cw_, cr_):
                return f"faces of {t} differ from those written"
        for k in dw:
            a, b = np.asarray(dw[k]), np.asarray(dr[k])
            if cfg.vpad and a.ndim == 2 and a.shape[1] == 2:
                a = _pad(a, 3)
            if cfg.comp1 and a.ndim == 2 and a.shape[1] == 1 and b.ndim == 1:
                a = a[:, 0]  # the format has no difference between them
            if not _close(*_common(a, b), max(cfg.data_rtol, cfg.f4tol if a.dtype.str[1:] == "f4" else 0) if a.dtype.kind == "f" else 0, 0):
                return f"cell data {k!r} on {t} differs from that written ({_why(a, b)})"
    if cfg.pd or cfg.ptags:
        pw = {k for k in W.point_data if (cfg.pd or k in {t[0] for t in cfg.ptags})}
        for k in pw:
            if k not in R.point_data:
                return f"point data {k!r} missing"
            a, b = np.asarray(W.point_data[k]), np.asarray(R.point_data[k])
            if cfg.vpad and a.ndim == 2 and a.shape[1] == 2:
                a = _pad(a, 3)
            if cfg.comp1 and a.ndim == 2 and a.shape[1] == 1 and b.ndim == 1:
                a = a[:, 0]
            if not _close(*_common(a, b), max(cfg.data_rtol, cfg.f4tol if a.dtype.str[1:] == "f4" else 0) if a.dtype.kind == "f" else 0, 0):
                return f"point data {k!r} differs from that written ({_why(a, b)})"
        extra = set(R.point_data) - pw - cfg.extra_pd
        if extra:
            return f"unexpected point data {sorted(extra)}"
    if cfg.ps:
        for k, v in W.point_sets.items():
            if k not in R.point_sets:
                return f"point set {k!r} missing"
            if not np.array_equal(np.asarray(v), np.asarray(R.point_sets[k])):
                return f"point set {k!r} differs from that written"
    if cfg.cs:
        for k, v in W.cell_sets.items():
            if not any(len(x) for x in v):
                continue
            if k not in R.cell_sets:
                return f"cell set {k!r} missing"
            a = _setids(W, v)
            b = _setids(R, R.cell_sets[k])
            if not np.array_equal(a, b):
                return f"cell set {k!r} differs from that written"
    return special.compare(cfg, W, R)


def _setids(mesh, per_block):
    off, out = 0, []
    for c, m in zip(mesh.cells, per_block):
        if m is not None:
            out.append(np.asarray(m, dtype="i8").reshape(-1) + off)
        off += len(c)
    return np.sort(np.concatenate(out)) if out else np.empty(0, "i8")


def _polyeq(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if len(x) != len(y):
            return False
        for f, g in zip(x, y):
            if not np.array_equal(np.asarray(f), np.asarray(g)):
                return False
    return True


def _common(a, b):
    if a.dtype.kind in "iu" and b.dtype.kind in "iu":
        return a.astype(object) if a.dtype == "u8" or b.dtype == "u8" else a.astype("i8"), b.astype(object) if a.dtype == "u8" or b.dtype == "u8" else b.astype("i8")
    return a, b


def _why(a, b):
    if a.shape != b.shape:
        return f"shape {b.shape}, written {a.shape}"
    return f"dtype {b.dtype}, written {a.dtype}"


def same_mesh(A, B):
    """Strict equality of two meshes returned by the reader (differential oracle)."""
    from .meshgen import diff_snap, snap_mesh

    return diff_snap(snap_mesh(A), snap_mesh(B))
