"""Files as other programs write them: syntax that meshio reads but never writes.

Each function is a stand-in for a foreign mesh program: it gets a path, a mesh and a
seeded generator and writes files.  Used by the checks which only read.
"""
import base64
import os
import struct
import zlib
import lzma

import numpy as np


def _put(path, data):
    if isinstance(data, str):
        data = data.encode()
    with open(path, "wb") as f:
        f.write(data)


def _p3(mesh):
    p = np.asarray(mesh.points, dtype=float)
    return p if p.shape[1] == 3 else np.column_stack([p, np.zeros(len(p))])


def _row(x):
    return " ".join(repr(float(v)) for v in x)


def _irow(x, off=1, sep=" "):
    return sep.join(str(int(v) + off) for v in x)


# ------------------------------------------------------------------ legacy VTK
def _vtk_num(a, asc, dt):
    a = np.asarray(a)
    if asc:
        return "\n".join(" ".join(repr(v) for v in r) for r in a.reshape(len(a), -1).tolist()).encode() + b"\n"
    return a.astype(dt).tobytes() + b"\n"


def vtk_grid(path, mesh, rng):
    """STRUCTURED_POINTS, STRUCTURED_GRID, RECTILINEAR_GRID with SCALARS/VECTORS/TENSORS/FIELD/METADATA."""
    asc = rng.random() < 0.5
    ver = rng.choice(["3.0", "4.2", "5.1"])
    kind = rng.choice(["STRUCTURED_POINTS", "STRUCTURED_GRID", "RECTILINEAR_GRID"])
    dims = [rng.randint(2, 4), rng.randint(1, 3), rng.randint(1, 3)]
    n = dims[0] * dims[1] * dims[2]
    nc = int(np.prod([d - 1 for d in dims if d > 1]))
    out = f"# vtk DataFile Version {ver}\nother program\n{'ASCII' if asc else 'BINARY'}\nDATASET {kind}\nDIMENSIONS {dims[0]} {dims[1]} {dims[2]}\n".encode()
    if kind == "STRUCTURED_POINTS":
        out += b"ORIGIN 0 0.5 -1\n" + (b"SPACING" if rng.random() < 0.5 else b"ASPECT_RATIO") + b" 1 0.25 2\n"
    elif kind == "STRUCTURED_GRID":
        out += f"POINTS {n} double\n".encode() + _vtk_num(np.arange(3.0 * n).reshape(n, 3), asc, ">f8")
    else:
        for a, d in zip("XYZ", dims):
            out += f"{a}_COORDINATES {d} float\n".encode() + _vtk_num(np.arange(d) * 0.5, asc, ">f4")
    out += _vtk_data(rng, asc, "POINT_DATA", n, ver) + _vtk_data(rng, asc, "CELL_DATA", nc, ver)
    _put(path, out)


def _vtk_data(rng, asc, sec, n, ver):
    if rng.random() < 0.2:
        return b""
    out = f"{sec} {n}\n".encode()
    meta = b"METADATA\nINFORMATION 1\nNAME L2_NORM_RANGE LOCATION vtkDataArray\nDATA 2 0 1\n\n"
    if rng.random() < 0.7:
        k = rng.choice([1, 2, 4])
        out += f"SCALARS s{sec[0]} double {k}\nLOOKUP_TABLE default\n".encode() + _vtk_num(np.arange(n * float(k)).reshape(n, k) / 3, asc, ">f8")
        if asc and rng.random() < 0.3:
            out += b"LOOKUP_TABLE tab 2\n0 0 0 1\n1 1 1 1\n"
    if rng.random() < 0.5:
        out += f"VECTORS v{sec[0]} float\n".encode() + _vtk_num(np.arange(n * 3.0).reshape(n, 3) / 4, asc, ">f4")
    if rng.random() < 0.3:
        out += f"TENSORS t{sec[0]} double\n".encode() + _vtk_num(np.arange(n * 9.0).reshape(n, 9) / 8, asc, ">f8")
    if rng.random() < 0.5:
        out += f"FIELD FieldData 2\na{sec[0]} 1 {n} int\n".encode() + _vtk_num(np.arange(n), asc, ">i4")
        if rng.random() < 0.5:
            out += meta
        out += f"b{sec[0]} 2 {n} float\n".encode() + _vtk_num(np.arange(2.0 * n).reshape(n, 2), asc, ">f4")
        if rng.random() < 0.5:
            out += meta
    if rng.random() < 0.3:
        d = np.arange(n * 3) % 200
        out += f"COLOR_SCALARS c{sec[0]} 3\n".encode() + (_vtk_num(d.reshape(n, 3) / 256, True, None) if asc else d.astype("u1").tobytes() + b"\n")
    return out


def vtk_cells(path, mesh, rng):
    """UNSTRUCTURED_GRID of version 3 with attribute sections."""
    asc = rng.random() < 0.5
    num = {"vertex": 1, "line": 3, "triangle": 5, "quad": 9, "tetra": 10, "hexahedron": 12, "wedge": 13, "pyramid": 14}
    p = _p3(mesh)
    n = len(p)
    out = f"# vtk DataFile Version 3.0\nx\n{'ASCII' if asc else 'BINARY'}\n\nDATASET UNSTRUCTURED_GRID\n".encode()
    if rng.random() < 0.3:
        out += b"FIELD FieldData 1\nTIME 1 1 double\n" + _vtk_num([0.5], asc, ">f8")
    out += f"POINTS {n} double\n".encode() + _vtk_num(p, asc, ">f8")
    if rng.random() < 0.3:
        out += b"METADATA\nINFORMATION 0\n\n"
    rows = [np.r_[len(r), r] for c in mesh.cells for r in c.data]
    ty = [num[c.type] for c in mesh.cells for _ in c.data]
    flat = np.concatenate(rows)
    out += f"CELLS {len(rows)} {len(flat)}\n".encode() + (("\n".join(" ".join(map(str, r)) for r in rows) + "\n").encode() if asc else flat.astype(">i4").tobytes() + b"\n")
    out += f"CELL_TYPES {len(ty)}\n".encode() + (("\n".join(map(str, ty)) + "\n").encode() if asc else np.array(ty, ">i4").tobytes() + b"\n")
    out += _vtk_data(rng, asc, "CELL_DATA", len(rows), "3.0") + _vtk_data(rng, asc, "POINT_DATA", n, "3.0")
    _put(path, out)


# ------------------------------------------------------------------ VTU
def vtu(path, mesh, rng):
    """Appended data (raw or base64, compressed or not), 32/64 bit headers, either byte order, one or two pieces."""
    num = {"vertex": 1, "line": 3, "triangle": 5, "quad": 9, "tetra": 10, "hexahedron": 12, "wedge": 13, "pyramid": 14}
    raw = rng.random() < 0.7
    comp = rng.choice([None, None, "zlib", "lzma"])
    big = rng.random() < 0.3
    e = ">" if big else "<"
    h = rng.choice(["UInt32", "UInt64"])
    hd = e + ("u4" if h == "UInt32" else "u8")
    if big and comp:
        comp = None
    blob = b""
    tags = []

    def block(a):
        b = a.tobytes()
        if comp is None:
            return np.array([len(b)], hd).tobytes() + b if raw else base64.b64encode(np.array([len(b)], hd).tobytes() + b)
        bs = rng.choice([64, 1000, 32768])
        ch = [b[i : i + bs] for i in range(0, len(b), bs)]
        c = [(zlib if comp == "zlib" else lzma).compress(x) for x in ch]
        head = np.array([len(ch), bs, len(ch[-1]) if ch else 0] + [len(x) for x in c], hd).tobytes()
        return head + b"".join(c) if raw else base64.b64encode(head) + base64.b64encode(b"".join(c))

    def arr(name, a, t, k=None):
        nonlocal blob
        a = np.ascontiguousarray(a).astype(e + {"Float64": "f8", "Int64": "i8", "UInt8": "u1", "Float32": "f4"}[t])
        s = f'<DataArray type="{t}" Name="{name}"' + (f' NumberOfComponents="{k}"' if k else "") + f' format="appended" offset="{len(blob)}"/>\n'
        blob += block(a)
        return s

    p = _p3(mesh)
    conn = np.concatenate([c.data.ravel() for c in mesh.cells])
    off = np.cumsum([c.data.shape[1] for c in mesh.cells for _ in c.data])
    ty = [num[c.type] for c in mesh.cells for _ in c.data]
    piece = f'<Piece NumberOfPoints="{len(p)}" NumberOfCells="{len(ty)}">\n<PointData>\n'
    if rng.random() < 0.6:
        piece += arr("pd", np.arange(len(p)) / 7, "Float64") + arr("pv", np.arange(3.0 * len(p)).reshape(-1, 3), "Float32", 3)
    piece += "</PointData>\n<CellData>\n"
    if rng.random() < 0.6:
        piece += arr("cd", np.arange(len(ty)), "Int64")
    piece += "</CellData>\n<Points>\n" + arr("Points", p, "Float64", 3) + "</Points>\n<Cells>\n"
    piece += arr("connectivity", conn, "Int64") + arr("offsets", off, "Int64") + arr("types", ty, "UInt8") + "</Cells>\n</Piece>\n"
    c = f' compressor="vtk{"ZLib" if comp == "zlib" else "LZMA"}DataCompressor"' if comp else ""
    out = f'<?xml version="1.0"?>\n<VTKFile type="UnstructuredGrid" version="1.0" byte_order="{"Big" if big else "Little"}Endian" header_type="{h}"{c}>\n<UnstructuredGrid>\n{piece}</UnstructuredGrid>\n'
    out = out.encode() + f'<AppendedData encoding="{"raw" if raw else "base64"}">\n_'.encode() + blob + b"\n</AppendedData>\n</VTKFile>\n"
    _put(path, out)


# ------------------------------------------------------------------ Abaqus
ABQ = {"line": "T3D2", "triangle": "S3", "quad": "S4R", "tetra": "C3D4", "hexahedron": "C3D8R", "wedge": "C3D6", "tetra10": "C3D10", "hexahedron20": "C3D20"}


def abaqus(path, mesh, rng):
    p = _p3(mesh)
    base = rng.choice([1, 10, 1001])
    step = rng.choice([1, 2])
    pid = base + step * np.arange(len(p))
    nodes = "*NODE" + rng.choice(["", ", NSET=all"]) + "\n" + "".join(f"{i}, {', '.join(repr(float(v)) for v in x)}\n" + rng.choice(["", "", "\n"]) for i, x in zip(pid, p))
    out = "*Heading\n** a comment, with comma\n"
    inc = rng.random() < 0.3
    if inc:
        d, b = os.path.split(path)
        other = os.path.splitext(b)[0] + "_inc.inp"
        el = "*ELEMENT, TYPE=S3\n1,1,2,3\n"
        _put(os.path.join(d, other), "*NODE\n1, 0., 0., 0.\n2, 1., 0., 0.\n3, 0., 1., 0.\n" + el + "*NSET, NSET=inc\n1, 3\n")
        out += f"*INCLUDE, INPUT={other}\n"
        _put(path, out + "*STEP\n*END STEP\n")
        return
    out += nodes
    e = rng.choice([1, 500])
    first = e
    names = []
    for k, c in enumerate(mesh.cells):
        names.append(f"E{k}")
        out += f"*Element, type={ABQ[c.type]}" + (f", ELSET=E{k}" if rng.random() < 0.6 else "") + "\n"
        for r in c.data:
            ids = [e] + pid[r].tolist()
            s = ", ".join(map(str, ids))
            if len(ids) > 8 or rng.random() < 0.1:
                m = len(ids) // 2
                s = ", ".join(map(str, ids[:m])) + ",\n" + ", ".join(map(str, ids[m:]))
            out += s + "\n"
            e += 1
    if rng.random() < 0.6:
        out += f"*NSET, NSET=gen, GENERATE\n{pid[0]}, {pid[-1]}, {step}\n"
    if rng.random() < 0.5:
        out += f"*ELSET, ELSET=egen, generate\n{first}, {e - 1}, 1\n"
    if rng.random() < 0.5:
        out += "*NSET, NSET=list\n" + ",\n".join(str(x) for x in pid[: rng.randint(1, 5)]) + rng.choice(["\n", ",\n"])
    if rng.random() < 0.4:
        out += f"*ELSET, ELSET=one\n{first},\n"
    out += "*MATERIAL, NAME=steel\n*ELASTIC\n2e11, 0.3\n" + rng.choice(["*END STEP\n", ""])
    _put(path, out)


# ------------------------------------------------------------------ Gmsh
GT = {"line": 1, "triangle": 2, "quad": 3, "tetra": 4, "hexahedron": 5, "wedge": 6, "pyramid": 7, "vertex": 15}


def gmsh22(path, mesh, rng):
    p = _p3(mesh)
    step = rng.choice([1, 3])
    tag = 1 + step * np.arange(len(p))
    out = rng.choice(["", "$Comments\nhello\n$EndComments\n"]) + "$MeshFormat\n2.2 0 8\n$EndMeshFormat\n"
    if rng.random() < 0.6:
        out += '$PhysicalNames\n2\n2 1 "in let"\n3 2 "wall"\n$EndPhysicalNames\n'
    out += f"$Nodes\n{len(p)}\n" + "".join(f"{t} {_row(x)}\n" for t, x in zip(tag, p)) + "$EndNodes\n\n"
    rows = [(GT[c.type], r) for c in mesh.cells for r in c.data]
    nt = rng.choice([2, 2, 3, 4])
    out += f"$Elements\n{len(rows)}\n" + "".join(f"{k + 1} {t} {nt} " + "1 2 1 -2"[: 2 * nt - 1 + (nt == 4)] + " " + _irow(tag[r], 0) + "\n" for k, (t, r) in enumerate(rows)) + "$EndElements\n"
    if rng.random() < 0.5:
        out += "$Periodic\n2\n0 1 2\n1\n1 2\n1 1 2\nAffine 1 0 0 0 0 1 0 0 0 0 1 0 0 0 0 1\n1\n2 1\n$EndPeriodic\n"
    if rng.random() < 0.5:
        out += f'$NodeData\n1\n"a view"\n1\n0.0\n3\n0\n1\n{len(p)}\n' + "".join(f"{t} {t / 3}\n" for t in tag) + "$EndNodeData\n"
    if rng.random() < 0.5:
        out += f'$ElementData\n2\n"other"\n"scheme"\n1\n0.5\n4\n0\n3\n{len(rows)}\n0\n' + "".join(f"{k + 1} {k} {k + 1} {k + 2}\n" for k in range(len(rows))) + "$EndElementData\n"
    if rng.random() < 0.3:
        out += "$Unknown\nwhatever\n$EndUnknown\n"
    _put(path, out)


def gmsh41(path, mesh, rng):
    p = _p3(mesh)
    asc = rng.random() < 0.5
    i4, u8, f8 = (lambda *a: " ".join(map(str, a)).encode() + b"\n", ) * 3 if asc else (lambda *a: np.array(a, "<i4").tobytes(), lambda *a: np.array(a, "<u8").tobytes(), lambda *a: np.array(a, "<f8").tobytes())
    out = f"$MeshFormat\n{rng.choice(['4.1', '4.1', '4'])} {0 if asc else 1} 8\n".encode() + (b"" if asc else struct.pack("<i", 1) + b"\n") + b"$EndMeshFormat\n"
    dims = {"vertex": 0, "line": 1, "triangle": 2, "quad": 2}
    ent = rng.random() < 0.6
    if ent:
        out += b'$PhysicalNames\n1\n3 7 "vol"\n$EndPhysicalNames\n'
        tags = {d: [k + 1 for k, c in enumerate(mesh.cells) if dims.get(c.type, 3) == d] for d in range(4)}
        out += b"$Entities\n" + u8(*[len(tags[d]) for d in range(4)])
        for d in range(4):
            for t in tags[d]:
                ph = [7] if d == 3 or rng.random() < 0.3 else []
                ph += [8] * (rng.random() < 0.2 and bool(ph))
                out += i4(t) + f8(*[0.0] * (3 if d == 0 else 6)) + u8(len(ph)) + (i4(*ph) if ph else b"")
                if d:
                    be = [1, -2][: rng.randint(0, 2)]
                    out += u8(len(be)) + (i4(*be) if be else b"")
        out += (b"" if asc else b"\n") + b"$EndEntities\n"
    tag = 1 + rng.choice([1, 2]) * np.arange(len(p))
    nb = 1 if len(p) < 2 or rng.random() < 0.5 else 2
    parts = np.array_split(np.arange(len(p)), nb)
    out += b"$Nodes\n" + u8(nb, len(p), int(tag[0]), int(tag[-1]))
    for k, idx in enumerate(parts):
        out += i4(2 - k, 1, 0) + u8(len(idx)) + b"".join(u8(int(t)) for t in tag[idx]) + b"".join(f8(*x.tolist()) for x in p[idx])
    out += (b"" if asc else b"\n") + b"$EndNodes\n"
    ne = sum(len(c.data) for c in mesh.cells)
    out += b"$Elements\n" + u8(len(mesh.cells), ne, 1, ne)
    e = 0
    for k, c in enumerate(mesh.cells):
        out += i4(dims.get(c.type, 3), k + 1, GT[c.type]) + u8(len(c.data))
        for r in c.data:
            e += 1
            out += u8(e, *tag[r].tolist())
    out += (b"" if asc else b"\n") + b"$EndElements\n"
    if rng.random() < 0.4:
        out += b"$Periodic\n" + u8(1) + i4(1, 2, 1) + u8(16) + f8(*[float(i % 5 == 0) for i in range(16)]) + u8(1) + u8(int(tag[-1]), int(tag[0])) + (b"" if asc else b"\n") + b"$EndPeriodic\n"
    if rng.random() < 0.3:
        out += b"$Comments\nmore\n$EndComments\n"
    _put(path, out)


# ------------------------------------------------------------------ Medit
MT = {"line": ("Edges", 5), "triangle": ("Triangles", 6), "quad": ("Quadrilaterals", 7), "tetra": ("Tetrahedra", 8), "hexahedron": ("Hexahedra", 10), "wedge": ("Prisms", 9), "pyramid": ("Pyramids", 49)}


def medit(path, mesh, rng):
    p = _p3(mesh)
    out = f"MeshVersionFormatted {rng.choice([1, 2])}\n# comment\nDimension" + rng.choice([" 3\n", "\n3\n"]) + f"\nVertices\n{len(p)}\n" + "".join(_row(x) + " 0\n" for x in p)
    out += f"RequiredVertices\n1\n1\nCorners\n2\n1\n1\n" if rng.random() < 0.5 else ""
    for c in mesh.cells:
        out += f"\n{MT[c.type][0]}\n{len(c.data)}\n" + "".join(_irow(r) + " 3\n" for r in c.data)
    if rng.random() < 0.4:
        out += "Normals\n1\n0 0 1\nNormalAtVertices\n1\n1 1\n"
    _put(path, out + rng.choice(["End\n", "\nEnd", ""]))


def meditb(path, mesh, rng):
    p = _p3(mesh)
    e = rng.choice("<>")
    v = rng.choice([1, 2, 3, 4])
    it = e + ("i8" if v == 4 else "i4")
    ft = e + ("f4" if v == 1 else "f8")
    pt = e + ("i8" if v >= 3 else "i4")
    i = lambda *a: np.array(a, e + "i4").tobytes()
    out = i(1, v) + i(3)
    out += np.array([len(out) + np.dtype(pt).itemsize + 4], pt).tobytes() + i(3)

    def sec(code, n, body):
        nonlocal out
        out += i(code)
        out += np.array([len(out) + np.dtype(pt).itemsize + np.dtype(it).itemsize + len(body)], pt).tobytes() + np.array([n], it).tobytes() + body

    sec(4, len(p), b"".join(x.astype(ft).tobytes() + np.array([2], it).tobytes() for x in p))
    if rng.random() < 0.5:
        sec(13, 1, np.array([1], it).tobytes())
    for c in mesh.cells:
        sec(MT[c.type][1], len(c.data), np.column_stack([c.data.astype(it) + 1, np.full(len(c.data), 5)]).astype(it).tobytes())
    if rng.random() < 0.7:
        out += i(54) + np.array([0], pt).tobytes()
    _put(path, out)


# ------------------------------------------------------------------ Nastran
NT = {"line": "CBAR", "triangle": "CTRIA3", "quad": "CQUAD4", "tetra": "CTETRA", "hexahedron": "CHEXA", "wedge": "CPENTA", "pyramid": "CPYRA"}


def nastran(path, mesh, rng):
    p = _p3(mesh)
    tag = 1 + rng.choice([1, 2, 10]) * np.arange(len(p))
    g, c_ = [], []
    st = rng.choice(["free", "small", "large"])
    for t, x in zip(tag, p):
        s = [f"{v:.3E}".replace("E+0", "+").replace("E-0", "-") for v in x]
        if st == "free":
            g.append(f"GRID,{t},,{s[0]},{s[1]},{s[2]}\n")
        elif st == "small":
            g.append(f"GRID    {t:>8}{'':8}" + "".join(f"{v:>8}"[:8] for v in s) + "\n")
        else:
            g.append(f"GRID*   {t:>16}{'':16}" + "".join(f"{v:>16}" for v in s[:2]) + f"*G{t:<6}\n*G{t:<6}{s[2]:>16}\n")
    k = 0
    refs = rng.random() < 0.6
    for b in mesh.cells:
        for r in b.data:
            k += 1
            ids = [str(x) for x in tag[r]]
            if b.type == "line":
                ids += ["11.0", "0.0", "0.0"]
            f = [NT[b.type], str(k), "4" if refs else ""] + ids
            if st == "free":
                c_.append(",".join(f[:9]) + (",+\n+," + ",".join(f[9:]) if len(f) > 9 else "") + "\n")
            else:
                c_.append("".join(f"{v:<8}" for v in f[:9]) + (f"+{k:<7}\n+{k:<7}" + "".join(f"{v:<8}" for v in f[9:]) if len(f) > 9 else "") + "\n")
            if rng.random() < 0.1:
                c_.append("$ comment\n")
    body = [c_, g] if rng.random() < 0.3 else [g, c_]
    _put(path, "SOL 101\nCEND\n$\nBEGIN BULK\n$ nodes\n" + "".join(body[0]) + "$\n\n" + "".join(body[1]) + "PSHELL  1       1       .1\nMAT1    1       2.1+11          .3\nENDDATA\n")


# ------------------------------------------------------------------ others
def netgen(path, mesh, rng):
    p = _p3(mesh)
    out = "# generated\nmesh3d\n\ndimension\n3\n\ngeomtype\n0\n\n"
    sec = {"line": [], "2": [], "3": []}
    for c in mesh.cells:
        for r in c.data:
            (sec["line"] if c.type == "line" else sec["2"] if c.type in ("triangle", "quad") else sec["3"]).append(r)
    two = rng.random() < 0.4
    s2 = rng.choice(["surfaceelements", "surfaceelementsgi", "surfaceelementsuv"])
    if sec["2"]:
        out += f"# surfnr bcnr\n{s2}\n{len(sec['2'])}\n" + "".join(f" 1 2 0 0 {len(r)} {_irow(r)}" + (" 0 0 0 0" if s2 != "surfaceelements" else "") + "\n" for r in sec["2"]) + "\n"
    if sec["3"]:
        out += f"# matnr\nvolumeelements\n{len(sec['3'])}\n" + "".join(f"1 {len(r)} {_irow(r)}\n" for r in sec["3"]) + "\n"
    if sec["line"]:
        out += ("surf1 surf2 p1 p2\n" if two else "") + f"edgesegmentsgi2\n{len(sec['line'])}\n" + "".join(f"1 0 {_irow(r)} -1 -1 0 0 1 0 1 0\n" + ("2 0.5 0.5\n" if two else "") for r in sec["line"]) + "\n"
        two = False
    out += f"points\n{len(p)}\n" + "".join(f"  {_row(x)}\n" for x in p) + "\n"
    if rng.random() < 0.5:
        out += "materials\n2\n1 iron\n2 air\n\nbcnames\n2\n1 left\n2 right\n\n"
    if rng.random() < 0.4:
        out += "identifications\n2\n1 2 1\n2 1 1\nidentificationtypes\n1\n2\n"
    if rng.random() < 0.4:
        out += "face_colours\n1\n1 0.1 0.2 0.3\nsingular_points\n0\n"
    _put(path, out + rng.choice(["endmesh\n", "endmesh", ""]))


def obj(path, mesh, rng):
    p = _p3(mesh)
    out = "# obj\nmtllib x.mtl\n" + "".join(f"v {_row(x)}\n" for x in p)
    vt, vn = rng.random() < 0.5, rng.random() < 0.5
    out += "".join(f"vt {k / 8} 0.5\n" for k in range(len(p))) if vt else ""
    out += "".join("vn 0 0 1\n" for k in range(len(p))) if vn else ""
    for k, c in enumerate(mesh.cells):
        out += rng.choice(["", f"g part{k}\ng\n", f"g p{k}\nusemtl m\ns off\n"])
        for r in c.data:
            out += "f " + " ".join(f"{i + 1}" + (f"/{i + 1 if vt else ''}/{i + 1}" if vn else f"/{i + 1}" if vt else "") for i in r.tolist()) + "\n"
    _put(path, out)


def off(path, mesh, rng):
    p = _p3(mesh)
    t = [r for c in mesh.cells for r in c.data]
    _put(path, "OFF\n# comment\n\n" + f"{len(p)} {len(t)} 0\n" + "".join(f"{_row(x)}\n" + rng.choice(["", "", "\n"]) for x in p) + "\n" + "".join(f"3  {_irow(r, 0)}\n" for r in t))


def ply(path, mesh, rng):
    p = _p3(mesh)
    fmt = rng.choice(["ascii", "binary_little_endian", "binary_big_endian"])
    e = ">" if "big" in fmt else "<"
    conf, lab = rng.random() < 0.5, rng.random() < 0.4
    it, itn = rng.choice([("int", "i4"), ("uint", "u4"), ("ushort", "u2")])
    t = [r for c in mesh.cells for r in c.data]
    h = f"ply\nformat {fmt} 1.0\ncomment scanner\nobj_info made up\nelement vertex {len(p)}\nproperty double x\nproperty double y\nproperty double z\n"
    h += ("property float confidence\nproperty uchar red\n" if conf else "") + f"element face {len(t)}\nproperty list uchar {it} vertex_indices\n" + ("property short label\n" if lab else "") + "end_header\n"
    out = h.encode()
    for k, x in enumerate(p):
        out += (_row(x) + (f" {k / 4} {k % 200}" if conf else "") + "\n").encode() if fmt == "ascii" else x.astype(e + "f8").tobytes() + (np.array([k / 4], e + "f4").tobytes() + bytes([k % 200]) if conf else b"")
    for k, r in enumerate(t):
        out += (f"{len(r)} {_irow(r, 0)}" + (f" {k}" if lab else "") + "\n").encode() if fmt == "ascii" else bytes([len(r)]) + r.astype(e + itn).tobytes() + (np.array([k], e + "i2").tobytes() if lab else b"")
    _put(path, out)


def stl(path, mesh, rng):
    p = _p3(mesh)
    out = "solid a part name\n"
    for c in mesh.cells:
        for r in c.data:
            out += "  facet normal 0 0 1\n    outer loop\n" + "".join(f"      vertex   {_row(x)}\n" for x in p[r]) + "    endloop\n  endfacet\n"
    _put(path, out + rng.choice(["endsolid a part name\n", "endsolid\n"]))


SU = {"line": 3, "triangle": 5, "quad": 9, "tetra": 10, "hexahedron": 12, "wedge": 13, "pyramid": 14}


def su2(path, mesh, rng):
    d = mesh.points.shape[1]
    idx = rng.random() < 0.5
    hi = [c for c in mesh.cells if (c.type in ("triangle", "quad")) == (d == 2) and c.type != "line"] or mesh.cells[:1]
    rows = [(SU[c.type], r) for c in hi for r in c.data]
    el = f"NELEM= {len(rows)}\n" + "".join(f"{t} {_irow(r, 0)}" + (f" {k}" if idx else "") + "\n" for k, (t, r) in enumerate(rows))
    pt = f"NPOIN= {len(mesh.points)}" + rng.choice(["", f" {len(mesh.points)}"]) + "\n" + "".join(_row(x) + (f" {k}" if idx else "") + "\n" for k, x in enumerate(mesh.points))
    out = f"% comment\nNDIME= {d}\n%\n" + (el + pt if rng.random() < 0.5 else pt + el)
    nm = rng.randint(0, 2)
    out += f"NMARK= {nm}\n" + "".join(f"MARKER_TAG= {rng.choice(['7', 'wall'])}\nMARKER_ELEMS= 1\n{'3 0 1' if d == 2 else '5 0 1 2'}\n" for _ in range(nm))
    _put(path, out)


def tecplot(path, mesh, rng):
    c = mesh.cells[0]
    p = mesh.points
    zt = {"triangle": "FETRIANGLE", "quad": "FEQUADRILATERAL", "tetra": "FETETRAHEDRON", "hexahedron": "FEBRICK"}[c.type]
    v = ["X", "Y", "Z"][: p.shape[1]] + ["rho", "p q"]
    data = [p[:, k] for k in range(p.shape[1])] + [np.arange(len(p)) / 8, np.arange(len(p)) / 16]
    blk = rng.random() < 0.5
    cc = blk and rng.random() < 0.5
    out = 'TITLE = "x"\n# comment\nVARIABLES = ' + rng.choice([", ", " ", ",\n"]).join(f'"{x}"' for x in v) + "\n"
    new = rng.random() < 0.5
    z = [f"N={len(p)}", f"E={len(c.data)}"] if not new else [f"NODES = {len(p)}", f"ELEMENTS = {len(c.data)}"]
    z += [f"DATAPACKING={'BLOCK' if blk else 'POINT'}", f"ZONETYPE={zt}"] if new or cc else [f"F={'FEBLOCK' if blk else 'FEPOINT'}", f"ET={zt[2:]}"]
    if cc:
        z.append(f"VARLOCATION=([{len(v)}]=CELLCENTERED)")
        data[-1] = np.arange(len(c.data)) / 32
    out += "ZONE " + rng.choice([", ", ",\n "]).join(z) + "\n"
    if blk:
        for a in data:
            k = rng.choice([3, 5, 1000])
            out += "".join(" ".join(repr(float(x)) for x in a[i : i + k]) + "\n" for i in range(0, len(a), k))
    else:
        out += "".join(_row(r) + "\n" for r in np.column_stack(data))
    _put(path, out + "".join(_irow(r) + "\n" for r in c.data) + rng.choice(["", "\n", "ZONE N=1, E=0, F=FEPOINT, ET=TRIANGLE\n0 0 0\n"]))


def tetgen(path, mesh, rng):
    p = _p3(mesh)
    b = rng.choice([0, 1])
    na, nm, ne = rng.randint(0, 2), rng.randint(0, 1), rng.randint(0, 1)
    t = [r for c in mesh.cells for r in c.data]
    stem = os.path.splitext(path)[0]
    _put(stem + ".node", f"# TetGen\n\n{len(p)}  3  {na}  {nm}\n" + "".join(f"   {k + b}    {_row(x)}" + " 0.5" * na + " 3" * nm + "\n" for k, x in enumerate(p)) + "# Generated by tetgen -p\n")
    _put(stem + ".ele", f"{len(t)}  4  {ne}\n" + "".join(f"    {k + b}    {_irow(r, b)}" + " 7" * ne + "\n" for k, r in enumerate(t)) + "# end\n")


def wkt(path, mesh, rng):
    p = mesh.points
    s = rng.choice([" ", "  ", "\n"])
    tri = []
    for c in mesh.cells:
        for r in c.data:
            q = [_row(p[i]) for i in [*r, r[0]]]
            tri.append("((" + f",{s}".join(q) + "))")
    _put(path, f"TIN{s}(" + f"{s},".join(tri) + ")" + rng.choice(["", "\n"]))


XT = {"line": ("Polyline", 2), "triangle": ("Triangle", 4), "quad": ("Quadrilateral", 5), "tetra": ("Tetrahedron", 6), "hexahedron": ("Hexahedron", 9), "wedge": ("Wedge", 8), "pyramid": ("Pyramid", 7)}


def xdmf2(path, mesh, rng):
    p = _p3(mesh)
    v = rng.choice(["2.0", "2.2", "3.0"])
    typ = "NumberType" if v[0] == "2" or rng.random() < 0.3 else "DataType"

    def item(a, t, extra=""):
        return f'<DataItem Dimensions="{" ".join(map(str, a.shape))}" {typ}="{t}" Precision="8" Format="XML"{extra}>\n' + "\n".join(" ".join(repr(x) for x in r) for r in a.reshape(len(a), -1).tolist()) + "\n</DataItem>"

    if len(mesh.cells) == 1:
        c = mesh.cells[0]
        topo = f'<Topology TopologyType="{XT[c.type][0]}" NumberOfElements="{len(c.data)}" NodesPerElement="{c.data.shape[1]}">{item(c.data.astype(int), "Int")}</Topology>\n'
    else:
        flat = np.concatenate([np.concatenate([[XT[c.type][1]] + ([2] if c.type == "line" else []) + r.tolist() for r in c.data]) for c in mesh.cells]).astype(int)
        topo = f'<Topology TopologyType="Mixed" NumberOfElements="{sum(len(c.data) for c in mesh.cells)}">{item(flat, "Int")}</Topology>\n'
    geo = f'<Geometry GeometryType="XYZ">{item(p, "Float")}</Geometry>\n'
    att = f'<Attribute Name="u" AttributeType="Scalar" Center="Node">{item(np.arange(len(p)) / 4, "Float")}</Attribute>\n' if rng.random() < 0.6 else ""
    n = sum(len(c.data) for c in mesh.cells)
    att += f'<Attribute Name="m" AttributeType="Scalar" Center="Cell">{item(np.arange(n), "Int")}</Attribute>\n' if rng.random() < 0.6 else ""
    info = '<Information Name="i" Value="1"><![CDATA[<main><map key="wall" dim="2">4</map></main>]]></Information>\n' if rng.random() < 0.4 else ""
    _put(path, f'<?xml version="1.0"?>\n<Xdmf Version="{v}"><Domain><Grid Name="g" GridType="Uniform">\n{geo}{topo}{att}{info}</Grid></Domain></Xdmf>\n')


PM = {"line": "PLOTL2", "triangle": "TRIA3", "quad": "QUAD4", "tetra": "TET4", "hexahedron": "HEXE8", "wedge": "PENTA6", "pyramid": "PYRA5"}


def permas(path, mesh, rng):
    p = _p3(mesh)
    out = "!PERMAS\n$ENTER COMPONENT NAME=X\n$STRUCTURE\n$COOR\n" + "".join(f"{10 + k} {_row(x)}\n" for k, x in enumerate(p)) + "!\n"
    e = 0
    for c in mesh.cells:
        out += f"$ELEMENT TYPE={PM[c.type]} ESET=E\n"
        for r in c.data:
            e += 1
            s = [str(10 + i) for i in r.tolist()]
            m = len(s) // 2 if rng.random() < 0.2 else len(s)
            out += f"{e} " + " ".join(s[:m]) + (" !\n 0 " + " ".join(s[m:]) if m < len(s) else "") + "\n"
    out += "$NSET NSET = A\n10 11\n12\n" if rng.random() < 0.4 and False else ""
    _put(path, out + "$END STRUCTURE\n$EXIT COMPONENT\n$FIN\n")


MP = {"line": "Line2D2", "triangle": "Triangle2D3", "quad": "Quadrilateral2D4", "tetra": "Tetrahedra3D4", "hexahedron": "Hexahedra3D8"}


def mdpa(path, mesh, rng):
    p = _p3(mesh)
    out = "Begin ModelPartData\n VAR 1.0\nEnd ModelPartData\n\nBegin Properties 0\nEnd Properties\n// comment\nBegin Table 1 TIME DISP\n 0 0\n 1 1\nEnd Table\n"
    out += "Begin Nodes\n" + "".join(f" {k + 1} {_row(x)}\n" for k, x in enumerate(p)) + "End Nodes\n\n"
    e = 0
    for c in mesh.cells:
        k = rng.choice(["Elements", "Conditions"])
        out += f"Begin {k} Small{MP[c.type]}\n"
        for r in c.data:
            e += 1
            out += f"\t{e}  1 {_irow(r)}\n"
        out += f"End {k}\n\n"
    out += "Begin SubModelPart Inlet // GUI\nBegin SubModelPartNodes\n1\n2\nEnd SubModelPartNodes\nEnd SubModelPart\n" if rng.random() < 0.5 else ""
    _put(path, out)


AV = {"line": "line", "triangle": "tri", "quad": "quad", "tetra": "tet", "hexahedron": "hex", "wedge": "prism", "pyramid": "pyr"}


def avsucd(path, mesh, rng):
    p = _p3(mesh)
    n = sum(len(c.data) for c in mesh.cells)
    out = "# comment\n# another\n" + f"{len(p)} {n} {2} {0} 0\n" + "".join(f"{k + 1} {_row(x)}\n" for k, x in enumerate(p))
    e = 0
    for c in mesh.cells:
        for r in c.data:
            e += 1
            out += f"{e} 3 {AV[c.type]} {_irow(r)}\n"
    _put(path, out + "2 1 1\nstress, Pa\ntemp, K\n" + "".join(f"{k + 1} {k / 4} {k / 8}\n" for k in range(len(p))))


def flac3d(path, mesh, rng):
    p = _p3(mesh)
    out = "* FLAC3D grid\n* by other\n* GRIDPOINTS\n" + "".join(f"G {5 + k} {_row(x)}\n" for k, x in enumerate(p)) + "* ZONES\n"
    F = {"triangle": "F T3", "quad": "F Q4", "tetra": "Z T4", "pyramid": "Z P5", "wedge": "Z W6", "hexahedron": "Z B8"}
    n = {"F": 0, "Z": 0}
    for c in mesh.cells:
        for r in c.data:
            k = F[c.type][0]
            n[k] += 1
            out += f"{F[c.type]} {n[k]} {_irow(r, 5)}\n"
    for k in "ZF":
        if n[k] and rng.random() < 0.7:
            out += f'* GROUPS\n{k}GROUP "Region 1" SLOT {rng.choice(["1", "Default"])}\n' + " ".join(str(i + 1) for i in range(n[k])) + "\n"
    _put(path, out)


def ansys(path, mesh, rng):
    """Only the sections meshio reads: comment, header, dimension, points, cells; the rest is skipped."""
    p = _p3(mesh)
    code = {"triangle": 1, "tetra": 2, "quad": 3, "hexahedron": 4, "pyramid": 5, "wedge": 6}
    out = '(0 "other program")\n(1 "x (nested) y")\n(2 3)\n' if False else '(0 "other program")\n(1 "x")\n(2 3)\n'
    out += f"(10 (0 1 {len(p):x} 0))\n(10 (1 1 {len(p):x} 1 3)\n(\n" + "".join(_row(x) + "\n" for x in p) + "))\n"
    n = sum(len(c.data) for c in mesh.cells)
    out += f"(12 (0 1 {n:x} 0))\n"
    s = 1
    for k, c in enumerate(mesh.cells):
        out += f"(12 ({k + 2:x} {s:x} {s + len(c.data) - 1:x} 1 {code[c.type]:x})(\n" + "".join(" ".join(f"{int(i) + 1:x}" for i in r) + "\n" for r in c.data) + "))\n"
        s += len(c.data)
    out += "(45 (2 fluid fluid-1)())\n(39 (3 wall wall-1)())\n"
    _put(path, out)


def dolfin(path, mesh, rng):
    p = np.asarray(mesh.points, float)
    c = mesh.cells[0]
    t = {"triangle": "triangle", "tetra": "tetrahedron"}[c.type]
    out = f'<?xml version="1.0" encoding="UTF-8"?>\n<dolfin xmlns:dolfin="http://www.fenicsproject.org">\n  <mesh celltype="{t}" dim="{p.shape[1]}">\n    <vertices size="{len(p)}">\n'
    order = list(range(len(p)))
    if rng.random() < 0.3:
        order.reverse()
    out += "".join(f'<vertex index="{k}" ' + " ".join(f'{a}="{float(v)!r}"' for a, v in zip("xyz", p[k])) + "/>\n" for k in order) + f'</vertices>\n<cells size="{len(c.data)}">\n'
    out += "".join(f'<{t} index="{k}" ' + " ".join(f'v{i}="{int(v)}"' for i, v in enumerate(r)) + "/>\n" for k, r in enumerate(c.data)) + "</cells>\n</mesh>\n</dolfin>\n"
    _put(path, out)
    if rng.random() < 0.5:
        ty = rng.choice(["uint", "int", "float"])
        d = os.path.splitext(path)[0]
        _put(d + "_physical_region.xml", f'<?xml version="1.0"?>\n<dolfin>\n<mesh_function type="{ty}" dim="2" size="{len(c.data)}">\n' + "".join(f'<entity index="{k}" value="{k}"/>\n' for k in range(len(c.data))) + "</mesh_function>\n</dolfin>\n")
