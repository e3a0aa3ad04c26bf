"""Seeded mesh generator.

A mesh is described by a *spec* -- plain JSON -- and ``build(spec)`` is a pure
function of it, so a spec in a replay file is the mesh.
"""
import random

import numpy as np

from . import special

NN = {
    "vertex": 1, "line": 2, "line3": 3, "line4": 4, "triangle": 3, "triangle6": 6, "triangle7": 7,
    "triangle10": 10, "quad": 4, "quad8": 8, "quad9": 9, "quad16": 16, "tetra": 4, "tetra10": 10,
    "tetra20": 20, "hexahedron": 8, "hexahedron20": 20, "hexahedron24": 24, "hexahedron27": 27,
    "hexahedron64": 64, "wedge": 6, "wedge12": 12, "wedge15": 15, "wedge18": 18,
    "pyramid": 5, "pyramid13": 13, "pyramid14": 14, "tetra14": 14, "hexahedron125": 125, "hexahedron216": 216, "line5": 5, "line6": 6, "triangle15": 15, "triangle21": 21,
    "quad25": 25, "quad36": 36, "tetra35": 35, "tetra56": 56, "wedge40": 40, "line11": 11, "line8": 8, "quad49": 49, "triangle28": 28,
}


def nn(ctype):
    if ":" in ctype:  # "polygon:5", "polyhedron:6"
        return int(ctype.split(":")[1])
    return NN[ctype]


def _floats(r, shape, dt, wild):
    n = int(np.prod(shape))
    a = r.uniform(-10.0, 10.0, n)
    if wild and n:
        k = r.integers(0, 10, n)
        sp = np.array([0.0, -0.0, 1.0, 1e300, -1e-300, 1 / 3.0, 123456789.123456789, 1e17, -2.5, 1e-17])
        if dt == "f4":
            sp = np.array([0.0, -0.0, 1.0, 1e30, -1e-30, 1 / 3.0, 16777217.0, 1e17, -2.5, 1e-7])
        pick = r.random(n) < 0.25
        a = np.where(pick, sp[k], a)
    return a.astype(dt).reshape(shape)


def _ints(r, shape, dt, big):
    info = np.iinfo(dt)
    lo, hi = max(info.min, -1000), min(info.max, 1000)
    a = r.integers(lo, hi, size=shape, endpoint=True).astype(dt)
    if big and a.size:
        pick = r.random(a.shape) < 0.2
        ext = r.integers(0, 2, size=a.shape)
        lo2, hi2 = max(info.min, -(2**62)), min(info.max, 2**62)
        if big == 32:
            lo2, hi2 = max(info.min, -(2**31)), min(info.max, 2**31 - 1)
        a = np.where(pick, np.where(ext == 0, np.array(lo2, dtype=dt), np.array(hi2, dtype=dt)), a).astype(dt)
    return a


def values(r, n, dt, comp, wild, big):
    shape = (n,) if comp == 0 else (n, comp)
    if dt[0] == "f":
        return _floats(r, shape, dt, wild)
    return _ints(r, shape, dt, big)


def build(spec):
    import meshio

    r = np.random.default_rng(spec["seed"])
    n = spec["n"]
    wild = spec.get("wild", False)
    big = spec.get("big", 0)
    pts = _floats(r, (n, spec["dim"]), spec["pdt"], wild)
    if spec.get("coarse"):
        pts = (np.round(pts * 64) / 64).astype(spec["pdt"])
    if spec.get("flat"):
        pts[:, 2] = 0.0
    if spec.get("distinct") and n:
        # strictly increasing first coordinate: all points distinct, also in single precision
        pts = r.uniform(-1, 1, pts.shape).astype(spec["pdt"])
        pts[:, 0] = (np.arange(n) * 2 + r.integers(0, 2, n)).astype(spec["pdt"]) * 0.125
        perm = r.permutation(n)
        pts = pts[perm]
        if spec.get("tiny"):
            pts = pts * spec["tiny"]
    cells = []
    for ctype, nc, idt in spec["blocks"]:
        m = nn(ctype)
        base = ctype.split(":")[0]
        if base == "polyhedron":
            data = []
            for _ in range(nc):
                faces = []
                # a prism-like polyhedron on m nodes: first/last half are polygons
                nodes = r.permutation(n)[:m]
                h = m // 2
                faces.append(np.array(nodes[:h]))
                faces.append(np.array(nodes[h:2 * h]))
                for i in range(h):
                    faces.append(np.array([nodes[i], nodes[(i + 1) % h], nodes[h + (i + 1) % h], nodes[h + i]]))
                data.append(faces)
            cells.append(meshio.CellBlock(f"polyhedron{m}", data))
            continue
        rows = np.empty((nc, m), dtype="i8" if n > {"u1": 256, "i1": 128, "i2": 32768}.get(idt, n) else idt)
        for i in range(nc):
            rows[i] = r.permutation(n)[:m] if n >= m else r.integers(0, max(n, 1), m)
        if spec.get("cover") and nc and rows.size >= n and len(spec["blocks"]) == 1:
            # make sure that every point is used at least once
            flat = rows.reshape(-1)
            perm = r.permutation(n)
            flat[: n] = perm
            rows = flat.reshape(nc, m).astype(idt)
        if spec.get("forder") and nc:
            rows = np.asfortranarray(rows)
        cells.append(meshio.CellBlock(base, rows))
    if spec.get("forder") and n:
        pts = np.asfortranarray(pts)
    pd = {}
    for name, dt, comp in spec.get("pd", []):
        pd[name] = values(r, n, dt, comp, wild, big)
    cd = {}
    for name, dt, comp in spec.get("cd", []):
        cd[name] = [values(r, len(c), dt, comp, wild, big) for c in cells]
    for name, lo, hi in spec.get("ptag", []):
        pd[name] = r.integers(lo, hi, n, endpoint=True).astype("i4")
    for name, lo, hi in spec.get("ctag", []):
        cd[name] = [r.integers(lo, hi, len(c), endpoint=True).astype("i4") for c in cells]
    ps = {}
    for name, frac in spec.get("ps", []):
        ps[name] = np.flatnonzero(r.random(n) < frac)
    cs = {}
    for name, frac in spec.get("cs", []):
        cs[name] = [np.flatnonzero(r.random(len(c)) < frac) for c in cells]
    if spec.get("part"):  # cell sets forming a partition of all cells
        names = spec["part"]
        asg = [r.integers(0, len(names), len(c)) for c in cells]
        for i, nm in enumerate(names):
            cs[nm] = [np.flatnonzero(a == i) for a in asg]
    fd = {}
    for name, kind in spec.get("fd", []):
        if kind == "gmsh":
            fd[name] = np.array([int(r.integers(1, 9)), int(r.integers(0, 3, endpoint=True))])
        else:
            fd[name] = values(r, int(kind), "f8", 0, False, 0)
    lay = LAYOUTS.get(spec.get("lay"))
    if lay:
        pts = lay(pts)
        cells = [meshio.CellBlock(c.type, lay(c.data)) if isinstance(c.data, np.ndarray) else c for c in cells]
        pd = {k: lay(v) for k, v in pd.items()}
        cd = {k: [lay(x) for x in v] for k, v in cd.items()}
    mesh = meshio.Mesh(pts, cells, point_data=pd, cell_data=cd, field_data=fd, point_sets=ps, cell_sets=cs)
    if spec.get("sp"):
        special.build(spec["sp"]["kind"], spec["sp"], spec, mesh, r)
    return mesh


def _strided(a):
    b = np.zeros((2 * len(a),) + a.shape[1:], a.dtype)
    b[::2] = a
    return b[::2]


def _readonly(a):
    a = a.copy()
    a.flags.writeable = False
    return a


# other layouts of the same values in memory
LAYOUTS = {"be": lambda a: a.astype(a.dtype.newbyteorder(">")), "strided": _strided, "neg": lambda a: a[::-1].copy()[::-1], "ro": _readonly}


EDGES = [511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 1365, 1366, 2047, 2048, 2049, 2730, 2731, 4095, 4096, 4097] + 5 * [2048, 4096]
NAMES = ["a", "temp", "phi_1", "Ux", "my-data", "B2"]
MANY = [f"n{i}" for i in range(24)]
ODD_NAMES = ["x y", "a.b", "ü", "p<q", "a&b", "q\"t", "100"]


def gen_spec(rng: random.Random, cfg, size=None, allow_data=True):
    """Draw a spec that the format configuration *cfg* documents as storable."""
    big = size
    if big is None:
        u = rng.random()
        big = "tiny" if u < 0.35 else "small" if u < 0.85 else "medium" if u < (0.92 if cfg.fmt == "vtu" else 0.97) else "large"
    types = list(cfg.types)
    dim = rng.choice(cfg.dims)
    if dim == 2 and cfg.types2d:
        types = [t for t in types if t in cfg.types2d]
    if dim == 3 and cfg.types3d:
        types = [t for t in types if t in cfg.types3d]
    if cfg.homdim and len(types) > 1:
        d = rng.choice(sorted({_tdim(t) for t in types}))
        types = [t for t in types if _tdim(t) == d]
    nblocks = 1 if rng.random() < 0.45 else rng.randint(1, 4)
    if rng.random() < 0.05 and big in ("tiny", "small"):  # so many that their numbers get a second digit
        nblocks = rng.randint(9, 14)
    if rng.random() < 0.04 and cfg.empty:
        nblocks = 0
    if cfg.single_type:
        types = [rng.choice(types)]
    if cfg.single_block:
        nblocks = min(nblocks, 1)
    if cfg.min_blocks and nblocks < cfg.min_blocks:
        nblocks = cfg.min_blocks
    chosen = []
    for _ in range(nblocks):
        chosen.append(rng.choice(types))
    if cfg.need and not set(chosen) & set(cfg.need[dim]):
        chosen.append(rng.choice(cfg.need[dim]))
    if cfg.unique_types:
        chosen = list(dict.fromkeys(chosen))
    maxc = {"tiny": 2, "small": 7, "medium": 60, "large": 1500}[big]
    if big == "large" and cfg.slow:
        maxc = 200
    blocks = []
    heavy = 1
    idt0 = rng.choice(cfg.idts)
    for t in chosen:
        mm = nn(t)
        mx = max(1, maxc * 8 // max(8, mm))
        nc = rng.randint(cfg.min_cells, mx) if rng.random() > 0.05 else cfg.min_cells
        blocks.append([t, max(nc, cfg.min_cells), rng.choice(["i8", "i4"]) if idt0 in ("i8", "i4") else idt0])
        heavy = max(heavy, mm)
    npts = {"tiny": rng.randint(1, 6), "small": rng.randint(3, 25), "medium": rng.randint(20, 300), "large": rng.randint(1000, 5000)}[big]
    if big == "large" and cfg.slow:
        npts = rng.randint(100, 600)
    npts = max(npts, heavy, cfg.min_pts)
    if big == "large" and rng.random() < 0.5:
        # sizes at which buffers, blocks and columns run full
        npts = max(rng.choice(EDGES), heavy)
        if len(blocks) == 1:
            blocks[0][1] = max(1, rng.choice(EDGES) // max(1, nn(blocks[0][0]) // 4))
    if idt0 == "u1" and npts > 50:  # also the largest index that fits
        npts = 256
    if not blocks and cfg.empty and rng.random() < 0.3 and cfg.min_pts == 0:
        npts = 0
    spec = {"seed": rng.randrange(2**32), "n": npts, "dim": dim, "pdt": rng.choice(cfg.pdts), "blocks": blocks}
    if rng.random() < 0.4 and cfg.wild:
        spec["wild"] = True
    if rng.random() < 0.4 and cfg.big:
        spec["big"] = cfg.big
    if cfg.coarse:
        spec["coarse"] = True
    if cfg.distinct:
        spec["distinct"] = True
        if cfg.tiny and rng.random() < 0.4:
            spec["tiny"] = rng.choice([1e-9, 1e22, 1e-3])
    if cfg.cover:
        tot = sum(b[1] * nn(b[0]) for b in blocks)
        if len(blocks) == 1:
            spec["n"] = max(nn(blocks[0][0]), min(spec["n"], tot))
            spec["cover"] = True
    if rng.random() < 0.12:
        spec["forder"] = True
    if rng.random() < 0.12 and cfg.lays:
        spec["lay"] = rng.choice(cfg.lays)
    if not allow_data:
        return spec
    names = list(NAMES) + (list(ODD_NAMES if cfg.odd_names is True else cfg.odd_names) if cfg.odd_names else [])

    def draw(kind, mx):
        out = []
        if not kind or not kind[0]:
            return out
        dts, comps = kind[0], kind[1]
        used = set()
        many = rng.random() < 0.04
        for _ in range(rng.randint(10, 16) if many else rng.choice([0, 0, 1, 1, 2, mx])):
            nm = rng.choice(names + MANY if many else names)
            if nm in used:
                continue
            used.add(nm)
            cs = comps(dim) if callable(comps) else comps
            out.append([nm, rng.choice(dts), rng.choice(cs)])
        return out

    pd = draw(cfg.pd, 3)
    cd = draw(cfg.cd, 3) if blocks else []
    if cfg.disjoint_names:
        cd = [x for x in cd if x[0] not in {y[0] for y in pd}]
    if pd:
        spec["pd"] = pd
    if cd:
        spec["cd"] = cd
    for tname, lo, hi in cfg.ptags:
        if rng.random() < 0.4:
            spec.setdefault("ptag", []).append([tname, lo, hi])
    if blocks:
        for tname, lo, hi in cfg.ctags:
            if rng.random() < 0.4:
                spec.setdefault("ctag", []).append([tname, lo, hi])
    if cfg.ps and rng.random() < 0.35:
        spec["ps"] = [[nm, rng.choice([0.0, 0.3, 1.0]) if cfg.empty_sets else rng.choice([0.5, 1.0])] for nm in rng.sample(["grp1", "fixed", "Inlet"], rng.randint(1, 2))]
    if cfg.cs and blocks and (len(blocks) == 1 or not cfg.cs_single) and rng.random() < 0.35:
        spec["cs"] = [[nm, rng.choice([0.6, 1.0])] for nm in rng.sample(["zone1", "steel", "Wall"], rng.randint(1, 2))]
    if cfg.special:
        special.draw(rng, cfg, spec)
    return spec


def _tdim(t):
    for p, d in (("vertex", 0), ("line", 1), ("tri", 2), ("quad", 2), ("polygon", 2)):
        if t.startswith(p):
            return d
    return 3


# ---------------------------------------------------------------- snapshots
def _arr(a):
    a = np.asarray(a) if not isinstance(a, np.ndarray) else a
    return (str(a.dtype), a.shape, a.tobytes() if a.dtype != object else repr(a.tolist()))


def snap(obj):
    """Deep value snapshot: dtype, shape, bytes, key order, container types."""
    if isinstance(obj, np.ndarray):
        return ("nd",) + _arr(obj)
    if isinstance(obj, dict):
        return ("dict", tuple((k, snap(v)) for k, v in obj.items()))
    if isinstance(obj, list):
        return ("list", tuple(snap(v) for v in obj))
    if isinstance(obj, tuple):
        return ("tuple", tuple(snap(v) for v in obj))
    if obj is None or isinstance(obj, (int, float, str, bytes, bool, np.generic)):
        return (type(obj).__name__, repr(obj))
    return ("obj", type(obj).__name__, repr(obj))


def snap_mesh(mesh):
    out = {}
    for k, v in sorted(vars(mesh).items()):
        if k == "cells":
            out[k] = ("cells", tuple((c.type, snap(c.data), snap(c.tags)) for c in v))
        else:
            out[k] = snap(v)
    return out


def diff_snap(a, b):
    for k in sorted(set(a) | set(b)):
        if k not in a:
            return f"attribute {k!r} appeared"
        if k not in b:
            return f"attribute {k!r} vanished"
        if a[k] != b[k]:
            return f"{k}: {_short(a[k])} became {_short(b[k])}"
    return None


def _short(s, n=160):
    r = repr(s)
    return r if len(r) <= n else r[:n] + "..."


def all_arrays(mesh):
    """Every array object reachable from the mesh (to detect in-place edits)."""
    out = [mesh.points]
    for c in mesh.cells:
        if isinstance(c.data, np.ndarray):
            out.append(c.data)
    out += [v for v in mesh.point_data.values()]
    for v in mesh.cell_data.values():
        out += list(v)
    out += [v for v in mesh.point_sets.values() if isinstance(v, np.ndarray)]
    for v in mesh.cell_sets.values():
        out += [x for x in v if isinstance(x, np.ndarray)]
    out += [v for v in mesh.field_data.values() if isinstance(v, np.ndarray)]
    return out


class _Any:
    """A pseudo-configuration that allows nearly everything the data model has."""

    name = "any"
    types = ["vertex", "line", "line3", "triangle", "triangle6", "quad", "quad8", "quad9", "tetra", "tetra10", "hexahedron", "hexahedron20", "hexahedron27", "wedge", "pyramid", "wedge18"]
    dims = (2, 3)
    types2d = types3d = need = mixed_types = special = None
    lays = ("strided", "neg", "ro", "be")
    homdim = single_type = single_block = unique_types = coarse = distinct = cover = disjoint_names = slow = tiny = cs_single = False
    empty = wild = ps = cs = odd_names = empty_sets = True
    big = 64
    min_blocks = 0
    min_cells = 0
    min_pts = 0
    idts = ("i8", "i4", "u4", "u8", "i2")
    pdts = ("f8", "f4")
    pd = cd = (["f4", "f8", "i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8"], [0, 1, 2, 3, 6, 9])
    ptags = [["point_tags", 0, 4], ["medit:ref", 0, 4], ["nastran:ref", 1, 4], ["tetgen:ref", 0, 4]]
    ctags = [["gmsh:physical", 1, 5], ["gmsh:geometrical", 1, 5], ["medit:ref", 0, 4], ["netgen:index", 1, 4], ["su2:tag", 1, 4], ["ugrid:ref", 1, 4], ["flac3d:group", 1, 4], ["cell_tags", -4, 0],
             ["avsucd:material", 1, 4], ["nastran:ref", 1, 4], ["tetgen:ref", 0, 4]]


ANY = _Any()


def gen_any(rng):
    """Draw a mesh without regard to what a format supports."""
    spec = gen_spec(rng, ANY, size=rng.choice(["tiny", "small", "small"]))
    for key in ("ptag", "ctag"):
        if spec.get(key) and len(spec[key]) > 2:
            spec[key] = rng.sample(spec[key], 2)
    if rng.random() < 0.3:
        spec["fd"] = [["grp", "gmsh"], ["f", "2"]][: rng.randint(1, 2)]
    if rng.random() < 0.15 and spec["blocks"]:
        spec["part"] = ["pa", "pb"]
    return spec
