"""Phases shared by the checks: build the stage, write, read, and drawing the
parts of a scenario from the run's random generator."""
import hashlib
import os
import re
import pathlib
import random

from . import core, foreign, formats, meshgen
from .formats import ALL as CFGS

AUTO = {".vtk": "vtk", ".vtu": "vtu", ".xdmf": "xdmf", ".inp": "abaqus", ".f3grid": "flac3d", ".ply": "ply", ".stl": "stl", ".avs": "avsucd", ".mdpa": "mdpa",
        ".mesh": "medit", ".meshb": "medit", ".bdf": "nastran", ".vol": "netgen", ".vol.gz": "netgen", ".obj": "obj", ".off": "off", ".dato": "permas",
        ".dato.gz": "permas", ".su2": "su2", ".svg": "svg", ".dat": "tecplot", ".node": "tetgen", ".ugrid": "ugrid", ".wkt": "wkt", ".hmf": "hmf", ".cgns": "cgns",
        ".h5m": "h5m", ".med": "med", ".e": "exodus", ".xml": "dolfin-xml"}
ALT_EXT = {".bdf": [".bdf", ".fem", ".nas"], ".dat": [".dat", ".tec"], ".e": [".e", ".exo", ".ex2"], ".xdmf": [".xdmf", ".xmf"], ".dato": [".dato", ".post"],
           ".dato.gz": [".dato.gz", ".post.gz"], ".node": [".node", ".ele"]}
MODULES = {"vtk": "vtk", "dolfin-xml": "dolfin", "neuroglancer": "neuroglancer"}


def is_hdf(name):
    """Configurations stored through the HDF5 or netCDF C library."""
    return CFGS[name].fmt in ("exodus", "hmf", "cgns", "h5m", "med") or name.lower().startswith("xdmf-hdf")


# ------------------------------------------------------------------ drawing
def pick_cfg(rng, i, names):
    """Round-robin over the configurations, so that every one is reached evenly."""
    only = os.environ.get("VERIF_CFG")  # for exploring a single configuration by hand
    if only:
        names = [n for n in names if re.fullmatch(only, n)] or names
    return names[i % len(names)]


def draw_target(rng, cfg, plain=0.5):
    """Where and how the file is named and addressed."""
    ext = rng.choice(ALT_EXT.get(cfg.ext, [cfg.ext])) if rng.random() < 0.3 else cfg.ext
    t = {"path": "out" + ext, "cwd": ".", "how": "abs", "auto": False}
    if AUTO.get(cfg.ext) == cfg.fmt and rng.random() < 0.4:
        t["auto"] = True
    if rng.random() < plain:
        return t
    stem = rng.choice(["m", "mesh.v2", "a b", "Ünï", "x-1_y", "out.tmp"])
    if cfg.fmt in ("ugrid",):
        stem = rng.choice(["m", "a b", "x-1_y"])  # the name selects the flavour
    d = rng.choice(["", "sub/", "d.1/", "two levels/in/"])
    if cfg.ext == "":
        ext = ""
        stem = stem.replace(".", "_")
    if t["auto"] and rng.random() < 0.3 and cfg.fmt not in ("ugrid", "medit", "tetgen", "netgen", "permas"):
        ext = ext.upper()
    t["path"] = d + stem + ext
    t["cwd"] = rng.choice([".", "elsewhere", d or "."])
    t["how"] = rng.choice(["abs", "rel", "pathlib", "rel-pathlib"])
    return t


def draw_short(rng, p=0.5, spec=None):
    if rng.random() >= p:
        return None
    if spec is not None and size_of(spec) > 4000:  # tiny transfers only where they stay cheap
        return {"seed": rng.randrange(2**32), "r": rng.choice([0, 333, 5000]), "w": rng.choice([0, 257, 4096]), "eintr": rng.choice([0, 0, 5, 20])}
    return {"seed": rng.randrange(2**32), "r": rng.choice([0, 1, 7, 64, 1000, 5000]), "w": rng.choice([0, 1, 13, 100, 4096]), "eintr": rng.choice([0, 0, 5, 20])}


def size_of(spec):
    """Rough number of scalars in the mesh."""
    n = spec["n"] * (spec["dim"] + sum(max(1, d[2]) for d in spec.get("pd", [])))
    return n + sum(b[1] * (meshgen.nn(b[0]) + sum(max(1, d[2]) for d in spec.get("cd", []))) for b in spec["blocks"])


def draw_stale(rng, p=0.4):
    """Older content at the target: another mesh, or something longer."""
    if rng.random() >= p:
        return None
    return {"kind": rng.choice(["garbage", "garbage-long", "older", "older-large"]), "seed": rng.randrange(2**32), "companions": rng.random() < 0.7}


def fpath(root, t):
    """The path object the scenario passes to meshio (cwd is already set)."""
    full = os.path.join(root, t["path"])
    how = t["how"]
    if how.startswith("rel"):
        p = os.path.relpath(full, os.getcwd())
    else:
        p = full
    return pathlib.Path(p) if how.endswith("pathlib") else p


def stage(root, t):
    os.makedirs(os.path.dirname(os.path.join(root, t["path"])) or root, exist_ok=True)
    os.makedirs(os.path.join(root, t["cwd"]), exist_ok=True)
    os.chdir(os.path.join(root, t["cwd"]))


def companions(cfg, path):
    """Companion paths the format defines for a target path."""
    stem = os.path.splitext(path)[0]
    out = []
    if cfg.fmt == "tetgen":
        other = ".ele" if path.endswith(".node") else ".node"
        return [stem + other]
    if cfg.fmt == "xdmf":
        return [stem + "." + c for c in cfg.companions]
    return out


# ------------------------------------------------------------------- phases
def writer_kwargs(sc, cfg):
    kw = dict(cfg.kw)
    kw.update(sc.get("kw", {}))
    return kw


def invoke_write(root, sc, mesh, fname=None):
    """One write call through the chosen public entry point."""
    import meshio

    cfg = CFGS[sc["cfg"]]
    t = sc["target"]
    p = fname if fname is not None else fpath(root, t)
    if cfg.foreign:  # a stand-in for another program
        return getattr(foreign, cfg.foreign)(os.fspath(p), mesh, random.Random(repr(sc["spec"])))
    kw = writer_kwargs(sc, cfg)
    if cfg.direct:  # the format's own module
        return getattr(meshio, cfg.direct).write(p, mesh, **kw)
    ff = {} if t.get("auto") else {"file_format": cfg.fmt}
    api = sc.get("api", "write")
    if api == "mesh.write":
        return mesh.write(p, **ff, **kw)
    if api == "points_cells":
        return meshio.write_points_cells(p, mesh.points, mesh.cells, point_data=mesh.point_data, cell_data=mesh.cell_data, field_data=mesh.field_data,
                                         point_sets=mesh.point_sets, cell_sets=mesh.cell_sets, **ff, **kw)
    return meshio.write(p, mesh, **ff, **kw)


def invoke_read(root, sc, fname=None):
    import meshio

    cfg = CFGS[sc["cfg"]]
    t = sc["target"]
    p = fname if fname is not None else fpath(root, t)
    if t.get("auto"):
        return meshio.read(p)
    return meshio.read(p, file_format=cfg.read_fmt or cfg.fmt)


def stale_spec(sc):
    st = sc["stale"]
    return meshgen.gen_spec(random.Random(st["seed"]), CFGS[sc["cfg"]], "medium" if st["kind"].endswith("large") else "small")


def ph_stale(root, sc):
    """Put older content at the target (fault free)."""
    cfg = CFGS[sc["cfg"]]
    t, st = sc["target"], sc["stale"]
    core.install(root)
    stage(root, t)
    r = random.Random(st["seed"])
    paths = [t["path"]] + (companions(cfg, t["path"]) if st["companions"] else [])
    if st["kind"].startswith("garbage"):
        for p in paths:
            with open(os.path.join(root, p), "wb") as f:
                f.write(r.randbytes(60000 if st["kind"].endswith("long") else r.randint(0, 300)))
    else:
        spec = stale_spec(sc)
        core.call(lambda: invoke_write(root, dict(sc, api="write"), meshgen.build(spec)))
    return True


def ph_write(root, sc, plan=None, snap=False):
    core.install(root, plan)
    stage(root, sc["target"])
    mesh = meshgen.build(sc["spec"])
    o, info = core.call(lambda: invoke_write(root, sc, mesh))
    h, names = core.open_handles()
    return {"out": o, "info": info if o == "raise" else None, "stats": core.stats(), "handles": h, "handle_names": names}


def ph_read_compare(root, sc, plan=None):
    """Read and compare with the reference model of what was written."""
    core.install(root, plan)
    stage(root, sc["target"])
    o, v = core.call(lambda: invoke_read(root, sc))
    diff = None
    if o == "ok":
        try:
            diff = formats.compare(CFGS[sc["cfg"]], meshgen.build(sc["spec"]), v)
        except Exception as e:  # what was read is not even a comparable mesh
            diff = f"mesh read back is malformed: {core.exc_info(e)}"
    return {"out": o, "info": v if o == "raise" else None, "diff": diff, "stats": core.stats()}


def ph_read_snap(root, sc, plan=None):
    core.install(root, plan)
    stage(root, sc["target"])
    o, v = core.call(lambda: invoke_read(root, sc))
    return {"out": o, "info": v if o == "raise" else None, "snap": meshgen.snap_mesh(v) if o == "ok" else None, "stats": core.stats()}


# --------------------------------------------------------------- reporting
def digest(*parts):
    h = hashlib.blake2b(digest_size=12)
    for p in parts:
        h.update(repr(p).encode())
        h.update(b"\0")
    return h.hexdigest()


def merge_fired(*stats):
    out = {}
    for s in stats:
        for k, v in (s or {}).get("fired", {}).items():
            out[k] = out.get(k, 0) + v
    return out


def shape(spec):
    """Coarse signature of a mesh: what kinds of things it contains."""
    return (spec["dim"], spec["pdt"], tuple((b[0], b[2], min(b[1], 3)) for b in spec["blocks"]), tuple((d[1], d[2]) for d in spec.get("pd", [])),
            tuple((d[1], d[2]) for d in spec.get("cd", [])), len(spec.get("ptag", [])), len(spec.get("ctag", [])), len(spec.get("ps", [])), len(spec.get("cs", [])),
            bool(spec.get("wild")), bool(spec.get("big")), bool(spec.get("forder")), spec["n"] == 0)


def V(cls, cfg, msg, **kw):
    return dict({"class": cls, "cfg": cfg, "msg": f"[{cfg}] {msg}"}, **kw)


# --------------------------------------------------------------- shrinking
def shrink_spec(spec, cfg=None):
    minc = cfg.min_cells if cfg else 1
    minb = cfg.min_blocks if cfg else 0
    for key in ("pd", "cd", "ptag", "ctag", "ps", "cs", "fd", "part"):
        if spec.get(key):
            yield {k: v for k, v in spec.items() if k != key}
            if len(spec[key]) > 1:
                for j in range(len(spec[key])):
                    yield dict(spec, **{key: spec[key][:j] + spec[key][j + 1:]})
    for key in ("wild", "big", "forder"):
        if spec.get(key):
            yield {k: v for k, v in spec.items() if k != key}
    if len(spec["blocks"]) > max(1, minb):
        for j in range(len(spec["blocks"])):
            yield dict(spec, blocks=spec["blocks"][:j] + spec["blocks"][j + 1:])
    for j, b in enumerate(spec["blocks"]):
        for nc in sorted({max(minc, 1), b[1] // 2, b[1] - 1}):
            if max(minc, 1) <= nc < b[1]:
                yield dict(spec, blocks=spec["blocks"][:j] + [[b[0], nc, b[2]]] + spec["blocks"][j + 1:])
    need = max([meshgen.nn(b[0]) for b in spec["blocks"]] + [1])
    for n in sorted({need, spec["n"] // 2, spec["n"] - 1}):
        if need <= n < spec["n"] and not spec.get("cover"):
            yield dict(spec, n=n)
    if spec["seed"] > 9:
        yield dict(spec, seed=1)


def shrink_common(sc):
    for key in ("stale", "blk"):
        if sc.get(key):
            yield dict(sc, **{key: None})
    for key in ("wplan", "rplan"):
        if sc.get(key):
            yield dict(sc, **{key: {}})
            pl = sc[key]
            if pl.get("short"):
                yield dict(sc, **{key: {k: v for k, v in pl.items() if k != "short"}})
            fs = pl.get("faults", [])
            for j in range(len(fs)):
                if len(fs) > 1:
                    yield dict(sc, **{key: dict(pl, faults=fs[:j] + fs[j + 1:])})
                if fs[j].get("sticky"):
                    yield dict(sc, **{key: dict(pl, faults=fs[:j] + [dict(fs[j], sticky=0)] + fs[j + 1:])})
                if fs[j]["nth"] > 1:
                    for nth in (1, fs[j]["nth"] // 2, fs[j]["nth"] - 1):
                        if nth < fs[j]["nth"]:
                            yield dict(sc, **{key: dict(pl, faults=fs[:j] + [dict(fs[j], nth=nth)] + fs[j + 1:])})
    t = sc.get("target")
    if t and (t["cwd"] != "." or t["how"] != "abs" or t.get("auto") or not t["path"].startswith("out.")):
        cfg = CFGS[sc["cfg"]]
        yield dict(sc, target=dict(t, path="out" + cfg.ext, cwd=".", how="abs"))
        if t.get("auto"):
            yield dict(sc, target=dict(t, auto=False))
    if sc.get("api", "write") != "write":
        yield dict(sc, api="write")
    if "spec" in sc:
        for s in shrink_spec(sc["spec"], CFGS.get(sc.get("cfg"))):
            yield dict(sc, spec=s)


# ------------------------------------------------------------ fault placing
W_ERRS = {"open_w": ["EACCES", "ENOSPC", "EMFILE", "EROFS", "EIO"], "write": ["ENOSPC", "EIO", "EDQUOT", "EFBIG"], "close_w": ["EIO", "ENOSPC", "EDQUOT"], "trunc": ["EIO", "ENOSPC"],
          "fsync": ["EIO"], "rename": ["EIO", "ENOSPC", "EACCES"], "mkdir": ["ENOSPC", "EACCES"], "unlink": ["EIO", "EACCES"], "open_r": ["EIO", "EACCES"], "read": ["EIO"]}
R_ERRS = {"open_r": ["EACCES", "EMFILE", "EIO", "ENFILE"], "read": ["EIO", "ESTALE"], "close_r": ["EIO"], "mmap": []}


def draw_wfault(rng):
    """One storage fault for a write, placed relative to the undisturbed run."""
    u = rng.random()
    if u < 0.25:
        return {"kind": "capacity", "frac": round(rng.random(), 4) if rng.random() < 0.8 else rng.choice([0.0, 0.999, 0.99])}
    op = rng.choices(["write", "open_w", "close_w", "trunc", "read"], [10, 3, 3, 1, 0.5])[0]
    return {"kind": "op", "op": op, "frac": rng.choice([0.0, 0.9999, round(rng.random(), 4), round(rng.random(), 4)]), "err": rng.choice(W_ERRS[op]), "sticky": int(rng.random() < 0.5)}


def draw_rfault(rng):
    op = rng.choices(["read", "open_r", "close_r"], [10, 2, 1])[0]
    return {"kind": "op", "op": op, "frac": rng.choice([0.0, 0.9999, round(rng.random(), 4), round(rng.random(), 4)]), "err": rng.choice(R_ERRS[op]), "sticky": int(rng.random() < 0.4)}


def draw_blk(rng):
    """Preferred I/O size reported for files: 0 = the real one."""
    return rng.choice([0, 0, 16, 64, 512])


def place(fault, dry_stats, dry_bytes, blk=0):
    """Turn a relative fault into a plan, given the undisturbed run's counts."""
    if fault["kind"] == "none":
        return {"blk": blk}
    if fault["kind"] == "capacity":
        return {"capacity": int(fault["frac"] * dry_bytes), "blk": blk}
    n = dry_stats["ops"].get(fault["op"], 0)
    nth = 1 + int(fault["frac"] * n) if n else 1
    return {"faults": [{"op": fault["op"], "nth": nth, "act": "err", "err": fault["err"], "sticky": fault["sticky"]}], "blk": blk}


def tree_bytes(root):
    return sum(len(v[1]) for v in core.tree(root).values())


def shrink_fault(sc, key="fault"):
    f = sc[key]
    if f.get("sticky"):
        yield dict(sc, **{key: dict(f, sticky=0)})
    for fr in (0.0, 0.5, 0.9999):
        if f.get("frac") not in (0.0, 0.5, 0.9999):
            yield dict(sc, **{key: dict(f, frac=fr)})
