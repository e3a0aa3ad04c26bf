"""P13: command-line tools report success only when the result is complete."""
import contextlib
import io
import os
import random

import numpy as np

from sim import core, formats, meshgen, ops
from sim.formats import CFGS

INPLACE = {"ascii": ["ansys", "flac3d", "gmsh", "mdpa", "ply", "stl", "vtk", "vtu", "xdmf"], "binary": ["ansys", "flac3d", "gmsh", "mdpa", "ply", "stl", "vtk", "vtu", "xdmf"],
           "compress": ["ansys", "cgns", "gmsh", "h5m", "mdpa", "ply", "stl", "vtk", "vtu", "xdmf"], "decompress": ["cgns", "h5m", "vtu", "xdmf"]}
READERS = sorted(n for n in CFGS if CFGS[n].reader)
WIDE = [n for n in READERS if n.startswith(("vtu", "vtk", "xdmf", "gmsh22", "abaqus", "med", "exodus"))]
RUNS = {"quick": 4500, "thorough": 250000}
LEVEL = "exploration"
RULE = ("a run = (command, its options, input file of some format configuration and mesh, output format and name, usage error or damaged input if any, at most one storage fault or full disk placed anywhere in the command); the command runs "
        "through meshio's own argument parser; its exit status, the files afterwards and the mesh read from them by a new process are compared with what the library's read and write give undisturbed, and with a model of the set conversions; "
        "distinct by (command, options, formats, fault and where it hit, exit status); non-trivial = the command got past its arguments")
ASSUMPTIONS = ["the library's own read and write, undisturbed, define the result of a conversion (they are decided by P01); set conversions follow the model in this file"]


def fam(name):
    f = CFGS[name].fmt
    return "gmsh" if f.startswith("gmsh") else "vtk" if f.startswith("vtk") and not f.startswith("vtu") else f


def gen(rng, i, tier):
    cmd = ["convert", "convert", "convert", "ascii", "binary", "compress", "decompress", "info"][i % 8]
    sc = {"cmd": cmd, "opts": [], "blk": ops.draw_blk(rng), "fault": None, "usage": None}
    if cmd == "convert":
        out = rng.choice(sorted(CFGS))
        cfg = CFGS[out]
        sc["spec"] = meshgen.gen_spec(rng, cfg, size=rng.choice(["tiny", "small", "small", "medium"]))
        sc["in"] = rng.choice(WIDE + [out] if cfg.reader else WIDE)
        sc["out"] = out
        sc["oauto"] = ops.AUTO.get(cfg.ext) == cfg.fmt and rng.random() < 0.6
        for o, p in (("--ascii", 0.3), ("--sets-to-int-data", 0.2), ("--int-data-to-sets", 0.2)):
            if rng.random() < p:
                sc["opts"].append(o)
        if rng.random() < 0.15:
            sc["opts"] += ["--float-format", rng.choice([".3e", ".16e", ".8f"])]
    else:
        ok = INPLACE.get(cmd)
        names = READERS if cmd == "info" or rng.random() < 0.15 else [n for n in READERS if fam(n) in ok]
        sc["in"] = rng.choice(names)
        sc["spec"] = meshgen.gen_spec(rng, CFGS[sc["in"]], size=rng.choice(["tiny", "small", "small", "medium"]))
        if cmd == "compress" and rng.random() < 0.4:
            sc["opts"].append("--max")
    c = CFGS[sc["in"]]
    f = c.read_fmt or c.fmt
    if f == "flac3d":  # a group read and written again has another name
        sc["spec"].pop("sp", None)
    sc["iauto"] = (ops.AUTO.get(c.ext) == f or c.ext == ".msh" and f in ("gmsh", "ansys")) and rng.random() < 0.7
    sc["stem"] = rng.choice(["m", "m", "a b", "mesh.v2"]) if f not in ("ugrid", "neuroglancer") else "m"
    sc["rel"] = rng.random() < 0.4
    u = rng.random()
    if u < 0.35:
        sc["fault"] = ops.draw_wfault(rng) if rng.random() < 0.65 and cmd != "info" else ops.draw_rfault(rng)
    elif u < 0.45:
        sc["usage"] = rng.choice(["missing", "nodir", "ext", "option", "cut", "garbage"])
        sc["useed"] = rng.randrange(2**32)
    return sc


def paths(sc):
    i = sc["stem"] + CFGS[sc["in"]].ext
    return "in/" + i, ("out/" + sc["stem"] + CFGS[sc["out"]].ext) if sc["cmd"] == "convert" else "in/" + i


def ph_prep(root, sc):
    core.install(root, {"clock": {"step": 0}})
    for d in ("in", "out"):
        os.makedirs(os.path.join(root, d))
    p, _ = paths(sc)
    full = os.path.join(root, p)
    t = {"cfg": sc["in"], "target": {"path": p, "how": "abs"}}
    o, v = core.call(lambda: ops.invoke_write(root, t, meshgen.build(sc["spec"])))
    if o == "raise":
        return v
    r = random.Random(sc.get("useed", 0))
    if sc["usage"] == "cut":
        n = os.path.getsize(full)
        os.truncate(full, r.randrange(n) if n else 0)
    elif sc["usage"] == "garbage":
        with open(full, "wb") as f:
            f.write(r.randbytes(r.randint(0, 200)))
    elif sc["usage"] == "missing":
        os.unlink(full)
    return True


def addr(sc, root, p):
    return p if sc["rel"] else os.path.join(root, p)


def argv(sc, root):
    i, o = paths(sc)
    c = CFGS[sc["in"]]
    a = [sc["cmd"], addr(sc, root, i)]
    if not sc["iauto"]:
        a += ["--input-format", c.read_fmt or c.fmt]
    if sc["cmd"] == "convert":
        if sc["usage"] == "nodir":
            o = "nowhere/x/" + os.path.basename(o)
        elif sc["usage"] == "ext":
            o = "out/m.unknown"
        a.append(addr(sc, root, o))
        if not sc["oauto"] and sc["usage"] != "ext":
            a += ["--output-format", CFGS[sc["out"]].fmt]
    if sc["usage"] == "option":
        a += ["--nonsense"] if sc["useed"] % 2 else ["--input-format", "no-such-format"]
    return a + sc["opts"]


def ph_cli(root, sc, plan):
    core.install(root, plan)
    os.chdir(root)
    from meshio._cli._main import main

    text = io.StringIO()

    def go():
        with contextlib.redirect_stdout(text), contextlib.redirect_stderr(io.StringIO()):
            try:
                return main(argv(sc, root))
            except SystemExit as e:
                return e.code

    o, v = core.call(go)
    if o == "raise":
        st = 1
    else:
        st = 0 if v is None else v if isinstance(v, int) else 1
    return {"status": st, "info": v if o == "raise" else None, "text": text.getvalue(), "stats": core.stats()}


# ------------------------------------------------------------------- model
def sets_to_data(m):
    if m.point_sets:
        a = np.full(len(m.points), -1, dtype=int)
        for i, idx in enumerate(m.point_sets.values()):
            for j in np.asarray(idx).ravel():
                a[j] = i
        m.point_data["-".join(m.point_sets)] = a
        m.point_sets = {}
    if m.cell_sets:
        out = []
        for k, c in enumerate(m.cells):
            a = np.full(len(c), -1, dtype=int)
            for i, s in enumerate(m.cell_sets.values()):
                if s[k] is not None:
                    for j in np.asarray(s[k]).ravel():
                        a[j] = i
            out.append(a)
        m.cell_data["-".join(m.cell_sets)] = out
        m.cell_sets = {}


def _names(key, tags):
    n = []
    for x in key.split("-"):
        if x not in n:
            n.append(x)
    return n if len(n) == len(tags) else [f"set-{key}-{t}" for t in tags]


def data_to_sets(m):
    for key in list(m.point_data):
        d = m.point_data[key]
        if d.dtype.kind in "iu":
            tags = sorted(set(d.ravel().tolist()))
            for n, t in zip(_names(key, tags), tags):
                m.point_sets[n] = np.array([i for i in range(len(d)) for _ in range(int(np.sum(d[i] == t)))], dtype=int)
            del m.point_data[key]
    for key in list(m.cell_data):
        dd = m.cell_data[key]
        if dd and all(d.dtype.kind in "iu" for d in dd):
            tags = sorted({x for d in dd for x in d.ravel().tolist()})
            for n, t in zip(_names(key, tags), tags):
                m.cell_sets[n] = [np.array([i for i in range(len(d)) for _ in range(int(np.sum(d[i] == t)))], dtype=int) for d in dd]
            del m.cell_data[key]


def inplace_write(p, mesh, cmd, fmt, mx):
    import meshio

    kw = {}
    if fmt in ("cgns", "h5m"):
        kw = {"compression": "gzip", "compression_opts": 9 if mx else 4} if cmd == "compress" else {"compression": None}
    elif fmt == "xdmf":
        kw = {"data_format": "XML"} if cmd == "ascii" else {"data_format": "HDF"}
        if cmd == "compress":
            kw.update(compression="gzip", compression_opts=9 if mx else 4)
        elif cmd == "decompress":
            kw.update(compression=None)
    else:
        kw = {"binary": cmd != "ascii"}
        if fmt == "vtu" and cmd == "compress":
            kw["compression"] = "lzma" if mx else "zlib"
        elif fmt == "vtu" and cmd == "decompress":
            kw["compression"] = None
    getattr(meshio, fmt).write(p, mesh, **kw)


def ph_model(root, sc):
    """The same work with the library's own functions, undisturbed."""
    import meshio

    core.install(root, {"clock": {"step": 0}, "blk": sc.get("blk") or 0})
    os.chdir(root)
    i, o = paths(sc)
    c = CFGS[sc["in"]]
    if sc["usage"] in ("option",):
        return {"out": "raise", "info": "usage", "stats": core.stats(), "text": ""}
    if sc["usage"] in ("nodir", "ext") and sc["cmd"] == "convert":
        return {"out": "raise", "info": "usage", "stats": core.stats(), "text": ""}
    text = [""]

    def go():
        ff = c.read_fmt or c.fmt
        m = meshio.read(addr(sc, root, i)) if sc["iauto"] else meshio.read(addr(sc, root, i), file_format=ff)
        if sc["cmd"] == "info":
            text[0] = str(m)
            return
        if sc["cmd"] != "convert":
            if ff not in INPLACE[sc["cmd"]]:
                raise ValueError("not supported")
            inplace_write(addr(sc, root, i), m, sc["cmd"], ff, "--max" in sc["opts"])
            return
        m.points = np.ascontiguousarray(m.points)
        if "--sets-to-int-data" in sc["opts"]:
            sets_to_data(m)
        if "--int-data-to-sets" in sc["opts"]:
            data_to_sets(m)
        kw = {}
        if "--float-format" in sc["opts"]:
            kw["float_fmt"] = sc["opts"][sc["opts"].index("--float-format") + 1]
        if "--ascii" in sc["opts"]:
            kw["binary"] = False
        ff = {} if sc["oauto"] else {"file_format": CFGS[sc["out"]].fmt}
        meshio.write(addr(sc, root, o), m, **ff, **kw)

    o_, v = core.call(go)
    return {"out": o_, "info": v if o_ == "raise" else None, "stats": core.stats(), "text": text[0]}


def ph_snap(root, path, fmt):
    import meshio

    core.install(root, {})
    o, v = core.call(lambda: meshio.read(os.path.join(root, path), file_format=fmt))
    return ("ok", meshgen.snap_mesh(v)) if o == "ok" else ("raise", v)


def files(root):
    return {f: v[1] for f, v in core.tree(root).items() if v[0] != "dir"}


def run(sc, disk):
    R = os.path.join(disk.root, "w")
    res = {"phases": 2, "fired": {}, "ops": 0, "nontrivial": False}
    name = sc["in"] + ("->" + sc["out"] if sc["cmd"] == "convert" else "")
    i, o = paths(sc)

    def fresh():
        disk.clear()
        os.makedirs(R)
        return core.phase(ph_prep, R, sc)

    p = fresh()
    if not p.ok or p.value is not True:
        return dict(res, outcome="no input", digest=(p.code, p.sig, p.value))
    before = files(R)
    m = core.phase(ph_model, R, sc)
    if not m.ok:
        return dict(res, outcome="library dies", digest=(m.code, m.sig))
    m = m.value
    want = files(R)
    outfmt = CFGS[sc["out"]].read_fmt or CFGS[sc["out"]].fmt if sc["cmd"] == "convert" else CFGS[sc["in"]].read_fmt or CFGS[sc["in"]].fmt
    can = m["out"] == "ok" and sc["cmd"] != "info" and (sc["cmd"] != "convert" or CFGS[sc["out"]].reader)
    wsnap = core.phase(ph_snap, R, o, outfmt).value if can else None
    fresh()
    if files(R) != before:
        return dict(res, outcome="input differs", digest=("input",))
    plan = {"blk": sc.get("blk") or 0}
    if sc["fault"] and m["out"] == "ok":
        plan = ops.place(sc["fault"], m["stats"], sum(len(v) for f, v in want.items() if before.get(f) != v), sc.get("blk") or 0)
    plan["clock"] = {"step": 0}
    c = core.phase(ph_cli, R, sc, plan)
    res["phases"] += 3
    after = files(R)
    beh = [sc["cmd"], sorted(sc["opts"]), name, sc["usage"], sc["iauto"], sc.get("oauto")]
    if not c.ok:
        res["outcome"] = "died"
        res["digest"] = (c.code, c.sig)
        if sc["fault"] is None:
            res["violation"] = ops.V("died", sc["cmd"], f"{name}: the command dies or hangs (exit {c.code}, signal {c.sig}) where the library does not")
        return res
    v = c.value
    res["fired"] = v["stats"]["fired"]
    res["ops"] = v["stats"]["total"]
    res["nontrivial"] = sc["usage"] not in ("option",)
    res["outcome"] = f"status {v['status']}"
    ok = v["status"] == 0
    beh += [sorted(res["fired"]), (v["info"] or {}).get("loc"), v["status"]]
    msg = None
    hit = any(":" in k and not k.endswith("EINTR") or k == "enospc" for k in res["fired"])
    src = [f for f in before]
    if ok and m["out"] != "ok":
        msg = f"exit status 0, but the work cannot be done: {m['info']}"
    elif not ok and m["out"] == "ok" and not hit:
        msg = f"fails ({v['info'] or 'status ' + str(v['status'])}) where the library can do it"
    elif ok and sc["cmd"] == "info" and m["text"].strip() not in v["text"]:
        msg = f"prints {v['text'][:200]!r}, the file holds {m['text'][:200]!r}"
    elif ok:
        bad = sorted(f for f in set(want) | set(after) if want.get(f) != after.get(f))
        if bad:
            msg = f"exit status 0, but {bad} not as the library writes them"
            if wsnap is not None and wsnap[0] == "ok":
                g = core.phase(ph_snap, R, o, outfmt)
                d = "not readable" if not g.ok else g.value[1] if g.value[0] == "raise" else meshgen.diff_snap(wsnap[1], g.value[1])
                msg += f" ({d})"[:300]
    if msg is None and sc["cmd"] in ("convert", "info") and any(after.get(f) != before[f] for f in src):
        msg = "the input file was changed"
    if msg is None and not ok and sc["cmd"] not in ("convert", "info") and v["stats"]["ops"].get("open_w", 0) <= sum(n for f, n in v["stats"]["fired"].items() if f.startswith("open_w:")) and not v["stats"]["ops"].get("trunc") and any(after.get(f) != before[f] for f in src):
        msg = "the file was changed although nothing was written"
    if msg is None and not ok and sc["usage"] in ("option", "missing") and after != before:
        msg = "a command that was refused changed files"
    if msg is None and ok and sc["cmd"] not in ("convert", "info") and KEEP(sc):
        g = core.phase(ph_snap, R, i, outfmt)
        res["phases"] += 1
        if not g.ok or g.value[0] == "raise":
            msg = f"exit status 0, but the file cannot be read any more: {g.value}"
        else:
            r = core.phase(ph_compare, R, sc, i, outfmt)
            if r.ok and r.value:
                msg = f"exit status 0, but the mesh is not the same: {r.value}"
    if msg:
        res["violation"] = ops.V("cli", sc["cmd"], f"{name} {' '.join(sc['opts'])}: {msg}")
    res["digest"] = (v["status"], (v["info"] or {}).get("type"), ops.digest(sorted((f, ops.digest(b)) for f, b in after.items())), msg)
    res["behaviour"] = ops.digest(*beh)
    return res


VARIANT = {"vtu": "vtu-ascii", "xdmf": "xdmf-XML", "ply": "ply-asc", "stl": "stl-asc", "vtk": "vtk51-asc", "flac3d": "flac3d-asc", "ansys": "ansys-asc"}


def KEEP(sc):
    return sc["usage"] is None and fam(sc["in"]) not in ("gmsh",)


def ph_compare(root, sc, path, fmt):
    """The file after an in-place command still holds the mesh it was made from."""
    import meshio

    core.install(root, {})
    m = meshio.read(os.path.join(root, path), file_format=fmt)
    want = meshgen.build(sc["spec"])
    d = formats.compare(CFGS[sc["in"]], want, m)
    var = VARIANT.get(fam(sc["in"]))
    if d and sc["cmd"] == "ascii" and var:  # a text variant keeps the digits that variant keeps
        d = formats.compare(CFGS[var], want, m)
    return d


def shrink(sc):
    for k in ("fault", "usage"):
        if sc[k]:
            yield dict(sc, **{k: None})
    for k, o in enumerate(sc["opts"]):
        if o.startswith("--"):
            n = 2 if o == "--float-format" else 1
            yield dict(sc, opts=sc["opts"][:k] + sc["opts"][k + n:])
    for k in ("iauto", "oauto", "rel"):
        if sc.get(k):
            yield dict(sc, **{k: False})
    if sc["stem"] != "m":
        yield dict(sc, stem="m")
    if sc["fault"]:
        yield from ops.shrink_fault(sc)
    for s in ops.shrink_spec(sc["spec"], CFGS[sc.get("out") or sc["in"]]):
        yield dict(sc, spec=s)
