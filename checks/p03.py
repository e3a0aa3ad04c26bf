"""P03: writing never modifies the mesh that is written."""
import numpy as np

from sim import core, formats, interrupt, meshgen, ops
from sim.formats import CFGS

NAMES = sorted(CFGS)
RUNS = {"quick": 9000, "thorough": 400000}
LEVEL = "exploration"
RULE = ("a run = (format configuration, mesh the format supports or an arbitrary mesh, entry point, disturbance: none, a storage fault, a full disk, or an interrupt/allocation failure at any "
        "meshio statement of the write); a deep snapshot of the mesh, of every container and of every array the caller passed is compared before and after; distinct by (configuration, mesh "
        "shape, disturbance kind, outcome); non-trivial = the write reached the format's writer")
ASSUMPTIONS = ["interrupts arrive between Python statements of meshio, not inside numpy or C libraries"]


def gen(rng, i, tier):
    name = ops.pick_cfg(rng, i, NAMES)
    cfg = CFGS[name]
    arb = rng.random() < 0.45
    spec = meshgen.gen_any(rng) if arb else meshgen.gen_spec(rng, cfg, size=rng.choice(["tiny", "small", "small"]))
    u = rng.random()
    dist = []
    if u < 0.35:
        dist = [dict(ops.draw_wfault(rng)) for _ in range(4)]
    elif u < 0.85:
        dist = [{"kind": "interrupt", "frac": round(rng.random(), 5), "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])} for _ in range(8)]
    return {"blk": ops.draw_blk(rng), "cfg": name, "spec": spec, "arb": arb, "target": ops.draw_target(rng, cfg, 0.9), "dist": dist, "api": rng.choice(["write", "write", "mesh.write", "points_cells"]),
            "cform": rng.choice(["blocks", "tuples", "dict"])}


def _setdata(n, sets):
    a = np.full(n, -1)
    for i, ids in enumerate(sets):
        if ids is not None:
            a[ids] = i
    return a


def classify(name, before, after):
    """Recognise, exactly, the conversions the VTK and VTU writers apply to the mesh in place
    (two-component data padded with zeros; sets turned into integer data)."""
    fmt = CFGS[name].fmt
    if fmt not in ("vtk", "vtk42", "vtu"):
        return "other"
    kinds = set()
    for attr, per_block in (("point_data", False), ("cell_data", True)):
        B, A = getattr(before, attr), getattr(after, attr)
        sets_b, sets_a = getattr(before, attr.replace("data", "sets")), getattr(after, attr.replace("data", "sets"))
        if sets_b and (not sets_a or len(A) == len(B) + 1) and fmt != "vtk42" and len(A) in (len(B), len(B) + 1):
            key = list(A)[-1]
            if key in B:
                return "other"
            if per_block:
                ok = len(A[key]) == len(before.cells) and all(np.array_equal(A[key][k], _setdata(len(c), [v[k] for v in sets_b.values()])) for k, c in enumerate(before.cells))
            else:
                ok = np.array_equal(A[key], _setdata(len(before.points), sets_b.values()))
            if not ok:
                return "other"
            A.pop(key)
            setattr(after, attr.replace("data", "sets"), sets_b)
            kinds.add("sets-to-data")
        if list(A) != list(B):
            return "other"
        for k in B:
            bl, al = (B[k], A[k]) if per_block else ([B[k]], [A[k]])
            if len(bl) != len(al):
                return "other"
            for j, (b, a) in enumerate(zip(bl, al)):
                if fmt != "vtu" and b.ndim == 2 and b.shape[1] == 2 and a.shape == (len(b), 3) and a.dtype == b.dtype and np.array_equal(a[:, :2], b, equal_nan=b.dtype.kind == "f") and not a[:, 2].any():
                    kinds.add("padded-vectors")
                    if per_block:
                        A[k][j] = b
                    else:
                        A[k] = b
    if meshgen.diff_snap(meshgen.snap_mesh(before), meshgen.snap_mesh(after)):
        return "other"
    return "+".join(sorted(kinds))


def _write(root, sc, plan, at=None, exc=None):
    """One write; returns what changed in the things the caller owns."""
    import meshio

    core.install(root, plan)
    ops.stage(root, sc["target"])
    cfg = CFGS[sc["cfg"]]
    mesh = meshgen.build(sc["spec"])
    kw = ops.writer_kwargs(sc, cfg)
    owned = {"options": kw}
    if sc["api"] == "points_cells":
        if sc["cform"] == "tuples":
            cells = [(c.type, c.data) for c in mesh.cells]
        elif sc["cform"] == "dict" and len({c.type for c in mesh.cells}) == len(mesh.cells):
            cells = {c.type: c.data for c in mesh.cells}
        else:
            cells = list(mesh.cells)
        owned.update(points=mesh.points, point_data=mesh.point_data, cell_data=mesh.cell_data, field_data=mesh.field_data, point_sets=mesh.point_sets, cell_sets=mesh.cell_sets)
        owned["cells"] = cells if not isinstance(cells, list) else [c if isinstance(c, tuple) else (c.type, c.data) for c in cells]
    s0 = meshgen.snap_mesh(mesh)
    o0 = {k: meshgen.snap(v) for k, v in owned.items()}
    p = ops.fpath(root, sc["target"])
    ff = {} if sc["target"].get("auto") else {"file_format": cfg.fmt}

    def go():
        if sc["api"] == "mesh.write":
            mesh.write(p, **ff, **kw)
        elif sc["api"] == "points_cells":
            meshio.write_points_cells(p, mesh.points, cells, point_data=owned["point_data"], cell_data=owned["cell_data"], field_data=owned["field_data"],
                                      point_sets=owned["point_sets"], cell_sets=owned["cell_sets"], **ff, **kw)
        else:
            meshio.write(p, mesh, **ff, **kw)

    ln = interrupt.Lines(at, exc or "KeyboardInterrupt")
    with ln:
        o, info = core.call(go)
    diff = meshgen.diff_snap(s0, meshgen.snap_mesh(mesh)) or meshgen.diff_snap(o0, {k: meshgen.snap(v) for k, v in owned.items()})
    kind = None
    if diff:
        opt = meshgen.diff_snap({"options": o0["options"]}, {"options": meshgen.snap(kw)})
        kind = "other" if opt else classify(sc["cfg"], meshgen.build(sc["spec"]), mesh)
    return {"kind": kind, "out": o, "info": info if o == "raise" else None, "diff": diff, "lines": ln.n, "at": ln.fired, "stats": core.stats()}


def run(sc, disk):
    name = sc["cfg"]
    d = core.phase(_write, disk.root, sc, {"blk": sc["blk"] or 0})
    res = {"phases": 1, "fired": {}}
    if not d.ok:
        return dict(res, outcome="died", nontrivial=False, digest=(d.code, d.sig))
    v = d.value
    res.update(ops=v["stats"]["total"], digest=(v["stats"]["digest"], v["out"], v["diff"]), outcome="written" if v["out"] == "ok" else "refused")
    res["behaviour"] = ops.digest(name, ops.shape(sc["spec"]), sc["api"], v["out"])
    res["nontrivial"] = v["lines"] > 12
    if v["diff"]:
        what = "returned" if v["out"] == "ok" else f"was refused ({v['info']['type']})"
        res["violation"] = ops.V("mutated", name, f"the write {what} and changed what the caller passed: {v['diff']}", how=what.split()[0], kind=v["kind"])
        return res
    if sc["dist"]:
        size = ops.tree_bytes(disk.root)
        disk.clear()
        w = core.phase(_disturbed, disk.root, sc, v["stats"], v["lines"], size)
        res["phases"] = 2
        if not w.ok:
            return dict(res, outcome="died", digest=(res["digest"], w.code, w.sig))
        for dd, u in zip(sc["dist"], w.value):
            for k, n in u["stats"]["fired"].items():
                res["fired"][k] = res["fired"].get(k, 0) + n
            if u["at"]:
                res["fired"]["interrupt:" + dd["exc"]] = res["fired"].get("interrupt:" + dd["exc"], 0) + 1
            res["ops"] += u["stats"]["total"]
            res["digest"] = (res["digest"], u["stats"]["digest"], u["out"], u["diff"])
            res["outcome"] = "disturbed: " + ("returned" if u["out"] == "ok" else "raised")
            res["behaviour"] = ops.digest(res["behaviour"], dd["kind"], dd.get("op"), u["at"] or "", u["out"])
            if u["diff"]:
                res["violation"] = ops.V("mutated", name, f"a write disturbed by {dd['kind']} {u['at'] or sorted(u['stats']['fired'])} changed what the caller passed: {u['diff']}", how="disturbed", kind=u["kind"])
                break
    return res


def _disturbed(root, sc, stats, lines, size):
    """The same write again and again, each time on a fresh mesh and disturbed elsewhere."""
    out = []
    for dd in sc["dist"]:
        if dd["kind"] == "interrupt":
            u = _write(root, sc, {"blk": sc["blk"] or 0}, 1 + int(dd["frac"] * lines), dd["exc"])
        else:
            u = _write(root, sc, ops.place(dd, stats, size, sc["blk"] or 0))
        out.append(u)
        if u["diff"]:
            break
    return out


def shrink(sc):
    if sc.get("dist"):
        yield dict(sc, dist=[])
        for k in range(len(sc["dist"])):
            if len(sc["dist"]) > 1:
                yield dict(sc, dist=[sc["dist"][k]])
            for fr in (0.0, 0.5, 0.9999):
                if sc["dist"][k].get("frac") not in (0.0, 0.5, 0.9999) and len(sc["dist"]) == 1:
                    yield dict(sc, dist=[dict(sc["dist"][k], frac=fr)])
    yield from ops.shrink_common(sc)
