"""What single formats can hold beyond the common data model: how to draw it,
how to put it into the mesh, and what must come back."""
import numpy as np

PHYS = ["Inlet", "my wall", "a'b", "Ω-1", "x", "100", "z.z"]


def draw(rng, cfg, spec):
    f = DRAW.get(cfg.special)
    if f:
        sp = f(rng, cfg, spec)
        if sp:
            spec["sp"] = sp


def build(kind, sp, spec, mesh, r):
    BUILD[kind](sp, spec, mesh, r)


def compare(cfg, W, R):
    f = COMPARE.get(cfg.special)
    return f(cfg, W, R) if f else None


# ------------------------------------------------------------------- gmsh
def _names(rng):
    return rng.sample(PHYS, rng.randint(1, 3))


def _draw_periodic(rng, spec):
    if rng.random() < 0.25 and spec["n"] >= 2:
        return [[rng.randint(0, 2), rng.randint(1, 9), rng.randint(1, 9), rng.choice([0, 0, 16]), rng.randint(1, min(5, spec["n"] // 2))] for _ in range(rng.randint(1, 3))]
    return None


def _draw_gmsh(rng, cfg, spec):
    sp = {"kind": "gmsh"}
    if rng.random() < 0.4:
        # tags in one dimension are distinct
        sp["fd"] = [[nm, 3 + 2 * k, rng.randint(0, 3)] for k, nm in enumerate(_names(rng))]
    p = _draw_periodic(rng, spec)
    if p:
        sp["per"] = p
    return sp if len(sp) > 1 else None


def _draw_gmsh41(rng, cfg, spec):
    """Several blocks, each of one geometrical entity; the nodes are numbered by entity."""
    sp = _draw_gmsh(rng, cfg, spec) or {"kind": "gmsh"}
    if rng.random() < 0.55:
        sp["ent"] = {"extra": rng.randint(0, 3), "bound": rng.random() < 0.5, "tag0": rng.choice([1, 1, 7, 1000]), "phys": rng.choice([1, 40, 100000]), "scramble": rng.random() < 0.3}
        types = list(cfg.types)
        for _ in range(rng.randint(0, 3)):
            t = rng.choice(types)
            from .meshgen import nn
            if nn(t) <= spec["n"]:
                spec["blocks"].append([t, rng.randint(1, 4), spec["blocks"][0][2] if spec["blocks"] else "i8"])
        need = len(spec["blocks"]) + sp["ent"]["extra"]
        spec["n"] = max(spec["n"], need)
    return sp if len(sp) > 1 else None


def _build_gmsh(sp, spec, mesh, r):
    for nm, tag, dim in sp.get("fd", []):
        mesh.field_data[nm] = np.array([tag, dim])
    if sp.get("per"):
        per = []
        for dim, s, m, na, k in sp["per"]:
            perm = r.permutation(len(mesh.points))
            per.append([dim, (s, m), r.uniform(-1, 1, na) if na else None, np.stack([perm[:k], perm[k : 2 * k]], axis=1)])
        mesh.gmsh_periodic = per
    e = sp.get("ent")
    if e:
        ents, geo, phy = [], [], []
        for k, c in enumerate(mesh.cells):
            ents.append((c.dim, e["tag0"] + k))
            geo.append(np.full(len(c), e["tag0"] + k))
            phy.append(np.full(len(c), sp["fd"][k % len(sp["fd"])][1] if sp.get("fd") else e["phys"] + k % 2))
        for k in range(e["extra"]):
            ents.append((int(r.integers(0, 4)), e["tag0"] + 500 + k))
        n = len(mesh.points)
        ents = sorted(ents)
        cut = np.sort(r.permutation(n - 1)[: len(ents) - 1] + 1) if len(ents) > 1 else np.empty(0, int)
        which = np.searchsorted(cut, np.arange(n), side="right")
        if e.get("scramble"):
            which = which[r.permutation(n)]
        mesh.point_data["gmsh:dim_tags"] = np.array(ents)[which]
        mesh.cell_data["gmsh:geometrical"] = geo
        mesh.cell_data["gmsh:physical"] = phy
        if e["bound"]:
            mesh.cell_sets["gmsh:bounding_entities"] = [np.array(r.permutation(9)[: int(r.integers(0, 4))] + 1) if c.dim > 0 else np.empty(0, int) for c in mesh.cells]


def _cmp_gmsh(cfg, W, R):
    fw = {k: tuple(int(x) for x in v) for k, v in W.field_data.items()}
    fr = {k: tuple(int(x) for x in v) for k, v in R.field_data.items()}
    if fw != fr:
        return f"physical names {fr}, written {fw}"
    pw, pr = W.gmsh_periodic, R.gmsh_periodic
    if pw is None:
        if pr:
            return "periodic links appeared"
    else:
        if pr is None or len(pr) != len(pw):
            return "periodic links are missing"
        for a, b in zip(pw, pr):
            if int(a[0]) != int(b[0]) or tuple(int(x) for x in a[1]) != tuple(int(x) for x in b[1]):
                return "periodic links have other entities"
            x = np.zeros(0) if a[2] is None else np.asarray(a[2])
            y = np.zeros(0) if b[2] is None else np.asarray(b[2])
            if x.shape != y.shape or not np.allclose(x, y, rtol=cfg.rtol, atol=0):
                return "the affine maps of periodic links differ"
            if not np.array_equal(np.asarray(a[3], "i8"), np.asarray(b[3], "i8")):
                return "the nodes of periodic links differ"
    if "gmsh:bounding_entities" in W.cell_sets:
        b = R.cell_sets.get("gmsh:bounding_entities")
        if b is None or len(b) != len(W.cells):
            return "bounding entities are missing"
        for x, y in zip(W.cell_sets["gmsh:bounding_entities"], b):
            if not np.array_equal(np.asarray(x, "i8"), np.asarray([] if y is None else y, "i8")):
                return "bounding entities differ"
    if "gmsh:dim_tags" in W.point_data and fw and cfg.name.startswith("gmsh41"):
        for nm, (tag, dim) in fw.items():
            got = R.cell_sets.get(nm)
            if got is None or len(got) != len(W.cells):
                return f"cell set of the physical name {nm!r} is missing"
            for c, ph, g in zip(W.cells, W.cell_data["gmsh:physical"], got):
                want = len(c) if c.dim == dim and ph[0] == tag else 0
                if not np.array_equal(np.asarray(g, "i8"), np.arange(want)):
                    return f"cell set of the physical name {nm!r} differs"
    return None


# ----------------------------------------------------------------- flac3d
def _draw_flac(rng, cfg, spec):
    if rng.random() < 0.5:
        return {"kind": "flac3d", "sets": [[nm, rng.choice([0.5, 1.0, 0.2])] for nm in rng.sample(["g1", "rock", "big zone", "\u03a92", "Z"], rng.randint(1, 3))]}


def _build_flac(sp, spec, mesh, r):
    for nm, frac in sp["sets"]:
        s = [np.flatnonzero(r.random(len(c)) < frac) for c in mesh.cells]
        if not any(len(x) for x in s):
            k = [i for i, c in enumerate(mesh.cells) if len(c)]
            if not k:
                continue
            s[k[-1]] = np.array([len(mesh.cells[k[-1]]) - 1])
        mesh.cell_sets[nm] = s


def _flat_ids(mesh, s):
    off, out = 0, []
    for c, x in zip(mesh.cells, s):
        x = np.asarray([] if x is None else x, "i8")
        if len(x) and (x.min() < 0 or x.max() >= len(c)):
            return None
        out += (x + off).tolist()
        off += len(c)
    return sorted(out)


def _cmp_flac(cfg, W, R):
    """A group has its name and a slot which the writer picks."""
    got = {}
    for k, v in R.cell_sets.items():
        p = k.split(":")
        if len(p) != 3 or p[0] != "zone" or p[1] in got:
            return f"group {k!r}"
        got[p[1]] = _flat_ids(R, v)
    if set(W.cell_sets) != set(got):
        return f"groups {sorted(R.cell_sets)}, written {sorted(W.cell_sets)}"
    for k, v in W.cell_sets.items():
        if _flat_ids(W, v) != got[k]:
            return f"group {k!r} has the cells {got[k]}, written {_flat_ids(W, v)}"
    return None


# -------------------------------------------------------------------- med
def _draw_med(rng, cfg, spec):
    sp = {"kind": "med"}
    for k, lo in (("pt", 1), ("ct", -9)):
        if rng.random() < 0.3:
            sp[k] = [[lo + 2 * j, rng.sample(["grp", "Wall_1", "a b", "x" * 70, "y" * 80], rng.randint(1, 3))] for j in range(rng.randint(1, 3))]
    if rng.random() < 0.3 and spec["blocks"] and all(b[0] != "vertex" for b in spec["blocks"]):
        sp["elno"] = [["dg", rng.choice([1, 2, 3])]]
    return sp if len(sp) > 1 else None


def _build_med(sp, spec, mesh, r):
    from .meshgen import nn

    if sp.get("pt"):
        mesh.point_tags = {k: list(v) for k, v in sp["pt"]}
    if sp.get("ct"):
        mesh.cell_tags = {k: list(v) for k, v in sp["ct"]}
    for nm, k in sp.get("elno", []):
        mesh.cell_data[nm] = [r.uniform(-1, 1, (len(c), nn(c.type), k)) for c in mesh.cells]


def _cmp_med(cfg, W, R):
    for a in ("point_tags", "cell_tags"):
        w, g = getattr(W, a, {}), getattr(R, a, {})
        if {int(k): list(v) for k, v in w.items()} != {int(k): list(v) for k, v in g.items()}:
            return f"{a} {g}, written {w}"
    return None


# -------------------------------------------------------------------- obj
def _draw_obj(rng, cfg, spec):
    sp = {"kind": "obj", **{k: True for k in ("vn", "vt") if rng.random() < 0.4}}
    return sp if len(sp) > 1 else None


def _build_obj(sp, spec, mesh, r):
    for k, c in (("vt", 2), ("vn", 3)):
        if sp.get(k):
            mesh.point_data["obj:" + k] = r.uniform(-1, 1, (len(mesh.points), c))


# ----------------------------------------------------------------- netgen
def _draw_netgen(rng, cfg, spec):
    sp = {"kind": "netgen"}
    if rng.random() < 0.4:
        sp["fd"] = [[nm, 1 + k, rng.randint(0, spec["dim"])] for k, nm in enumerate(rng.sample(["Inlet", "w1", "x", "100"], rng.randint(1, 3)))]
    if rng.random() < 0.25 and spec["n"] >= 2:
        sp["ident"] = [rng.randint(1, 4), rng.randint(1, 2)]
    return sp if len(sp) > 1 else None


def _build_netgen(sp, spec, mesh, r):
    for nm, tag, dim in sp.get("fd", []):
        mesh.field_data[nm] = np.array([tag, dim])
    if sp.get("ident"):
        k, t = sp["ident"]
        mesh.info = {"netgen:identifications": np.column_stack([r.integers(1, len(mesh.points), (k, 2), endpoint=True), r.integers(1, t, k, endpoint=True)]),
                     "netgen:identificationtypes": r.integers(1, 3, t)}


def _cmp_netgen(cfg, W, R):
    dims = {d for d in range(W.points.shape[1] + 1)}
    fr = {k: tuple(int(x) for x in v) for k, v in R.field_data.items() if k}
    for k, v in W.field_data.items():
        if int(v[1]) in dims and fr.get(k) != (int(v[0]), int(v[1])):
            return f"region name {k!r} is {fr.get(k)}, written {tuple(v)}"
    for k, v in (W.info or {}).items():
        g = (R.info or {}).get(k)
        if g is None or not np.array_equal(np.asarray(v).reshape(-1), np.asarray(g).reshape(-1)):
            return f"{k} differ"
    return None


# ----------------------------------------------------------------- tetgen
def _draw_tetgen(rng, cfg, spec):
    # further attributes and markers, which need a first marker
    sp = {"kind": "tetgen"}
    if spec.get("ptag") and rng.random() < 0.5:
        sp["pa"] = rng.randint(1, 3)
    if spec.get("ctag") and rng.random() < 0.5:
        sp["ca"] = rng.randint(1, 2)
    return sp if len(sp) > 1 else None


def _build_tetgen(sp, spec, mesh, r):
    for k in range(sp.get("pa", 0)):
        mesh.point_data[f"tetgen:attr{k + 1}"] = r.uniform(-1, 1, len(mesh.points))
    for k in range(sp.get("ca", 0)):
        mesh.cell_data[f"tetgen:ref{k + 2}"] = [r.integers(-9, 10, len(c)) for c in mesh.cells]


DRAW = {"tetgen": _draw_tetgen, "gmsh": _draw_gmsh, "gmsh41": _draw_gmsh41, "flac3d": _draw_flac, "med": _draw_med, "obj": _draw_obj, "netgen": _draw_netgen}
BUILD = {"tetgen": _build_tetgen, "gmsh": _build_gmsh, "flac3d": _build_flac, "med": _build_med, "obj": _build_obj, "netgen": _build_netgen}
COMPARE = {"gmsh": _cmp_gmsh, "gmsh41": _cmp_gmsh, "flac3d": _cmp_flac, "med": _cmp_med, "netgen": _cmp_netgen}
