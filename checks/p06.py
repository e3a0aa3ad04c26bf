"""P06: an interrupted write is never read back as a different mesh."""
import numpy as np

from sim import core, formats, meshgen, ops
from sim.formats import CFGS

# the file states its sizes or has an end: what is read is the complete mesh
STRICT = {n for n in CFGS if n.startswith(("vtu", "xdmf", "hmf", "cgns", "h5m", "med", "dolfin", "ugrid.", "nastran", "wkt")) or n in ("ply-bin", "stl-bin")} - {"medit-bin", "medit-asc"}
# sections declare their sizes, but the file may end after any section
SECTIONS = {n for n in CFGS if n.startswith(("vtk", "gmsh", "medit", "ansys", "avsucd", "netgen", "tecplot", "tetgen", "off")) or n in ("ugrid-ascii", "ply-asc")}
TEXT = {n for n in SECTIONS if not n.endswith("-bin")}
NAMES = sorted(STRICT | SECTIONS)
RUNS = {"quick": 7000, "thorough": 500000}
LEVEL = "exploration"
RULE = ("a run = (format configuration, mesh, addressing, buffer size, up to five crashes: the process ends before, after or in the middle of the k-th write or other storage operation, or after the last byte of a line or record); what is on disk is read by a new "
        "process and compared with what it reads from the undisturbed write; distinct by (configuration, crash region, verdict, where the reader raised); non-trivial = at least one crash happened")
ASSUMPTIONS = ["fresh target: no older file at the path (a target and companion files of two different writes are not told apart by meshio)", "data handed to the kernel before the crash survives, in order (process crash, not power loss)",
               "a text file cut inside a number shows a shorter number: text formats may differ in that one number"]


def gen(rng, i, tier):
    name = ops.pick_cfg(rng, i, NAMES)
    cfg = CFGS[name]
    sc = {"cfg": name, "spec": meshgen.gen_spec(rng, cfg, size=rng.choice(["tiny", "small", "small", "medium"])), "target": ops.draw_target(rng, cfg, 0.9),
          "blk": rng.choice([0, 16, 16, 64, 512]), "crashes": []}
    for _ in range(rng.randint(2, 5)):
        if rng.random() < 0.35:
            sc["crashes"].append({"op": "byte", "act": "crash", "how": rng.choice(["line", "record"]), "frac": round(rng.random(), 4), "rec": rng.choice([4, 8, 12, 13, 16, 20, 24, 32, 50, 50]), "k": rng.choice([1, 1, 2, 3, 5])})
            continue
        sc["crashes"].append({"frac": rng.choice([round(rng.random(), 4), round(rng.random(), 4), 0.9999, round(1 - 0.1 * rng.random(), 4)]), "act": rng.choice(["torn", "torn", "crash", "crash_after"]),
                              "part": round(rng.random(), 4), "op": rng.choice(["write", "write", "write", "any"])})
    return sc


def ph_classify(root, sc, want):
    core.install(root)
    ops.stage(root, sc["target"])
    o, v = core.call(lambda: ops.invoke_read(root, sc))
    if o == "raise":
        return {"out": o, "info": v, "kind": "raised", "what": None, "stats": core.stats()}
    try:
        k, what = classify(want, v, sc["cfg"] in TEXT and sc["cfg"].startswith("vtk"))
    except Exception as e:
        k, what = "malformed", core.exc_info(e)
    return {"out": o, "info": None, "kind": k, "what": what, "stats": core.stats()}


def ph_good(root, sc, plan):
    core.install(root, plan)
    ops.stage(root, sc["target"])
    o, v = core.call(lambda: ops.invoke_read(root, sc))
    return {"out": o, "mesh": v if o == "ok" else None, "stats": core.stats()}


def eq(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes()


def classify(G, R, vtk=False):
    """How the mesh R read from the remains relates to G, read from the whole file."""
    if meshgen.diff_snap(meshgen.snap_mesh(G), meshgen.snap_mesh(R)) is None:
        return "same", None
    if len(R.points) != len(G.points):
        return "points", f"{len(R.points)} points of {len(G.points)}"
    if not eq(G.points, R.points):
        return "coords", f"coordinates differ in {ndiff(G.points, R.points)} number"
    gl, rl = list(G.cells), list(R.cells)
    gr, rr = _rows(gl), _rows(rl)
    if vtk and gr and len(rr) in (len(gr) - 1, len(gr)) and gr[:-1] == rr[: len(gr) - 1] and gr != rr:
        if len(rr) < len(gr) or gr[-1][0] != rr[-1][0]:
            return "lasttype", "the type of the last cell differs"
    if sum(len(c) for c in rl) != sum(len(c) for c in gl):
        if all(any(r.type == g.type and eq(r.data, g.data) for g in gl) for r in rl):
            return "blocks", f"{len(rl)} blocks of {len(gl)}"
        return "cells", f"{sum(len(c) for c in rl)} cells of {sum(len(c) for c in gl)}"
    if len(gl) != len(rl) or any(g.type != r.type or not _ceq(g.data, r.data) for g, r in zip(gl, rl)):
        return "conn", f"connectivity differs in {ndiff([c.data for c in gl], [c.data for c in rl])} number"
    for attr in ("point_data", "cell_data", "field_data", "point_sets", "cell_sets"):
        g, r = getattr(G, attr), getattr(R, attr)
        for k in r:
            if k not in g:
                return "data", f"{attr} {k!r} appeared"
            if meshgen.snap(g[k]) != meshgen.snap(r[k]):
                return "data", f"{attr} {k!r} differs in {ndiff(g[k], r[k])} number"
        if len(r) < len(g):
            return "lost", f"{attr} {sorted(set(g) - set(r))} missing"
    for attr in ("gmsh_periodic", "info"):
        if getattr(G, attr, None) and not getattr(R, attr, None):
            return "lost", f"{attr} missing"
    g, r = getattr(G, "info", None), getattr(R, "info", None)
    if isinstance(r, dict):
        r = {k: v for k, v in r.items() if v is not None}
    if isinstance(g, dict) and isinstance(r, dict) and set(r) == set(g):
        return "data", f"info differs in {ndiff(list(g.values()), [r[k] for k in g])} number"
    if isinstance(g, dict) and isinstance(r, dict) and set(r) < set(g) and all(meshgen.snap(g[k]) == meshgen.snap(r[k]) for k in r):
        return "lost", f"info {sorted(set(g) - set(r))} missing"
    return "other", str(meshgen.diff_snap(meshgen.snap_mesh(G), meshgen.snap_mesh(R)))


def bad(name, kind, what):
    if kind in ("raised", "same"):
        return False
    if name in STRICT:
        return True
    if kind in ("lost", "blocks") or (kind == "points" and what.startswith("0 points")):
        return False  # whole sections missing
    if kind == "lasttype":  # the last number of a VTK text file was cut
        return False
    if name in TEXT and kind == "data" and what.startswith("field_data") and what.endswith("appeared"):
        return False  # a name cut short
    if name in TEXT and kind in ("coords", "conn", "data"):
        return not what.endswith("in 1 number")
    return True


def _rows(blocks):
    return [(c.type, tuple(int(x) for x in row)) for c in blocks if isinstance(c.data, np.ndarray) for row in c.data]


def ndiff(a, b):
    """In how many scalars do two arrays (or lists of arrays) differ?"""
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return 10**6
        return sum(ndiff(x, y) for x, y in zip(a, b))
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype != b.dtype:
        return 10**6
    return int(np.sum(a != b))


def _ceq(a, b):
    return eq(a, b) if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) else formats._polyeq(a, b)


def run(sc, disk):
    name = sc["cfg"]
    blk = sc.get("blk") or 0
    d = core.phase(ops.ph_write, disk.root, sc, {"blk": blk})
    res = {"phases": 2, "fired": {}, "ops": 0, "nontrivial": False}
    if not d.ok or d.value["out"] != "ok":
        return dict(res, outcome="not written", digest=(d.code, d.sig))
    g = core.phase(ph_good, disk.root, sc, None)
    if not g.ok or g.value["out"] != "ok":
        return dict(res, outcome="good file not read", digest=(g.code, g.sig))
    want = g.value["mesh"]
    dg, beh = [], [name]
    main = core.tree(disk.root).get(sc["target"]["path"], (0, b""))[1]
    ends = [i + 1 for i, x in enumerate(main) if x == 10] or [0]
    for c in sc["crashes"]:
        disk.clear()
        st = d.value["stats"]
        if c["op"] == "byte":  # a chosen number of bytes reaches the disk: up to the end of a line, or of a record
            at = ends[int(c["frac"] * len(ends))] if c["how"] == "line" else max(0, len(main) - c["rec"] * c["k"])
            plan = {"blk": blk, "crash_at": at}
            f = {"act": "crash", "nth": at}
            where = f"byte {at}"
        else:
            n = st["total"] if c["op"] == "any" else st["ops"].get("write", 0)
            f = {"op": c["op"], "nth": 1 + int(c["frac"] * n), "act": c["act"] if c["op"] == "write" else ("crash" if c["act"] == "torn" else c["act"])}
            if f["act"] == "torn":
                f["arg"] = int(c["part"] * 1000)
            plan = {"blk": blk, "faults": [f]}
            where = f"storage operation {f}"
        w = core.phase(ops.ph_write, disk.root, sc, plan)
        res["phases"] += 1
        if not w.crashed:
            dg.append(("no crash", w.code))
            continue
        res["fired"][f["act"]] = res["fired"].get(f["act"], 0) + 1
        res["nontrivial"] = True
        r = core.phase(ph_classify, disk.root, sc, want)
        res["phases"] += 1
        if not r.ok:
            dg.append((r.code, r.sig))
            res["outcome"] = "hang" if r.hung else "died"
            continue
        v = r.value
        res["ops"] += v["stats"]["total"]
        res["outcome"] = v["kind"]
        dg.append((f["nth"], v["kind"], v["what"]))
        beh += [int(c["frac"] * 20), v["kind"], (v["info"] or {}).get("loc")]
        if bad(name, v["kind"], v["what"]):
            res["violation"] = ops.V(v["kind"], name, f"died at {where}; what survived is read without complaint, but {v['what']}")
            break
    res["digest"] = tuple(dg)
    res["behaviour"] = ops.digest(*beh)
    return res


def shrink(sc):
    for k in range(len(sc["crashes"])):
        if len(sc["crashes"]) > 1:
            yield dict(sc, crashes=[sc["crashes"][k]])
    if len(sc["crashes"]) == 1:
        c = sc["crashes"][0]
        for fr in (0.25, 0.5, 0.75, 0.9):
            if c["frac"] not in (0.25, 0.5, 0.75, 0.9):
                yield dict(sc, crashes=[dict(c, frac=fr)])
    yield from ops.shrink_common(sc)
