"""P08: calls touch only their own files; reading changes nothing on disk."""
import os
import random
import re
import tempfile

from sim import core, interrupt, meshgen, ops
from sim.formats import CFGS

NAMES = sorted(CFGS)
RUNS = {"quick": 8000, "thorough": 400000}
LEVEL = "exploration"
RULE = ("a run = (format configuration, mesh the format supports or an arbitrary one, target name, addressing and working directory, a stage full of neighbouring files whose names are derived from the target, "
        "then a write and a read, each undisturbed or disturbed by a storage fault, an interrupt at any meshio statement, or a damaged file); the whole directory tree, including the temporary and home directories, is compared "
        "before and after; distinct by (configuration, call, disturbance, outcome); non-trivial = the call reached the storage")
ASSUMPTIONS = ["access times are not observed"]


def gen(rng, i, tier):
    name = ops.pick_cfg(rng, i, NAMES)
    cfg = CFGS[name]
    arb = rng.random() < 0.25
    sc = {"cfg": name, "spec": meshgen.gen_any(rng) if arb else meshgen.gen_spec(rng, cfg, size=rng.choice(["tiny", "small", "small"])), "target": ops.draw_target(rng, cfg, 0.4), "blk": ops.draw_blk(rng),
          "nseed": rng.randrange(2**32), "old": rng.random() < 0.3, "api": rng.choice(["write", "write", "mesh.write"])}
    if rng.random() < 0.06:
        sc["missing_dir"] = True
    dist = []
    for _ in range(2):
        u = rng.random()
        dist.append({"kind": "none"} if u < 0.4 else ops.draw_wfault(rng) if u < 0.7 else {"kind": "interrupt", "frac": round(rng.random(), 5), "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])})
    sc["wdist"] = dist[0]
    u = rng.random()
    sc["rdist"] = {"kind": "none"} if u < 0.4 else ops.draw_rfault(rng) if u < 0.6 else {"kind": "interrupt", "frac": round(rng.random(), 5), "exc": "KeyboardInterrupt"} if u < 0.8 else {"kind": "cut", "frac": round(rng.random(), 4)}
    return sc


EXTS = [".h5", "0.bin", "1.bin", "2.bin", "7.bin", ".bin", ".xdmf", ".node", ".ele", ".xml", "_a.xml", ".tmp", "~", ".bak", ".vtu", ".vtk", ".msh", ".gz", ".vol", ".lock", ".1", "", ".png", ".json", ".npy"]


def env(root):
    os.environ["TMPDIR"] = os.path.join(root, "tmp")
    os.environ["HOME"] = os.path.join(root, "home")
    tempfile.tempdir = None


def ph_call(root, sc, kind, dist, plan, at):
    env(root)
    core.install(root, plan)
    t = sc["target"]
    os.chdir(os.path.join(root, t["cwd"]))
    mesh = meshgen.build(sc["spec"]) if kind == "write" else None
    fn = (lambda: ops.invoke_write(root, sc, mesh)) if kind == "write" else (lambda: ops.invoke_read(root, sc))
    if dist["kind"] == "interrupt":
        ln = interrupt.Lines(at=at, exc=dist["exc"])
        with ln:
            o, v = core.call(fn)
        n = ln.n
    else:
        ln, n = None, 0
        o, v = core.call(fn)
    st = core.stats()
    if ln is not None and ln.fired:
        st["fired"][dist["exc"]] = 1
    ev = []
    if kind == "read":
        ev = sorted({(e[0], e[1]) for e in core.events() if e[0] in ("open_w", "write", "trunc", "rename", "unlink", "mkdir") and e[4] != core.ACT["err"]})
    return {"out": o, "info": v if o == "raise" else None, "stats": st, "lines": n, "ev": ev}


def companion_ok(cfg, target, f):
    """Is *f* a companion file that the format defines for this target?"""
    if f == target:
        return True
    stem = os.path.splitext(target)[0]
    if cfg.fmt == "tetgen":
        return f in (stem + ".node", stem + ".ele")
    if cfg.fmt == "xdmf" and cfg.kw["data_format"] == "HDF":
        return f == stem + ".h5"
    if cfg.fmt == "xdmf" and cfg.kw["data_format"] == "Binary":
        return re.fullmatch(re.escape(stem) + r"\d+\.bin", f) is not None
    if cfg.fmt == "dolfin-xml":
        return re.fullmatch(re.escape(stem) + r"_[^/]+\.xml", f) is not None
    return False


def diff(a, b, allowed=()):
    for f in sorted(set(a) | set(b)):
        if f in allowed:
            continue
        if f not in a:
            return "leaves", f"{f} was left behind"
        if f not in b:
            return "removes", f"{f} was removed"
        if a[f] != b[f]:
            return "changes", f"{f} was changed" + (" (mode)" if a[f][:2] == b[f][:2] else "")
    return None


def lines_of(root, sc, kind):
    r = core.phase(ph_call, root, sc, kind, {"kind": "interrupt", "exc": "KeyboardInterrupt"}, None, None)
    return r.value["lines"] if r.ok else 0


def run(sc, disk):
    name = sc["cfg"]
    cfg = CFGS[name]
    root = disk.root
    res = {"phases": 3, "fired": {}, "ops": 0, "nontrivial": False}
    t = sc["target"]
    # 1. an undisturbed write on an empty stage: which files are its own
    none = {"kind": "none"}
    core.phase(lambda: (ops.stage(root, t), plant_dirs(root, sc)) and True)
    base = core.tree(root)
    d = core.phase(ph_call, root, sc, "write", none, {"blk": sc["blk"]}, None)
    if not d.ok:
        return dict(res, outcome="died", digest=(d.code, d.sig))
    own = {f for f in core.tree(root) if f not in base}
    made = sorted(own)
    for f in made:
        if not companion_ok(cfg, t["path"], f):
            return dict(res, outcome="stray", nontrivial=True, digest=("stray", f), behaviour=ops.digest(name, "stray"),
                        violation=ops.V("stray", name, f"writing {t['path']} with working directory {t['cwd']!r} created {f}, which the format does not define for that target"))
    own.add(t["path"])
    nbytes = sum(len(v[1]) for f, v in core.tree(root).items() if f in own)
    n = lines_of(root, sc, "write") if sc["wdist"]["kind"] == "interrupt" else 0
    # 2. the same among neighbours
    disk.clear()
    core.phase(lambda: (ops.stage(root, t), plant_dirs(root, sc)) and True)
    if sc["old"]:
        core.phase(ph_call, root, sc, "write", none, None, None)
    plant_n(root, sc, own)
    if sc.get("missing_dir"):
        sc = dict(sc, target=dict(t, path=os.path.join("no such dir", os.path.basename(t["path"]))))
        own = set()
    before = core.tree(root)
    f = sc["wdist"]
    plan = ops.place(f, d.value["stats"], nbytes, sc["blk"]) if f["kind"] in ("op", "capacity") else {"blk": sc["blk"]}
    w = core.phase(ph_call, root, sc, "write", f, plan, 1 + int(f.get("frac", 0) * n))
    if not w.ok:
        return dict(res, outcome="died", digest=(w.code, w.sig))
    v = w.value
    res["fired"].update(v["stats"]["fired"])
    res["ops"] += v["stats"]["total"]
    res["nontrivial"] = v["stats"]["total"] > 0
    after = core.tree(root)
    dd = diff(before, after, own)
    beh = [name, "w", f["kind"], v["out"], bool(v["stats"]["fired"]), t["how"], len(made)]
    res["outcome"] = "write " + v["out"]
    dig = [v["stats"]["digest"], v["out"], dd]
    if dd:
        res.update(violation=ops.V("write-" + dd[0], name, f"writing {sc['target']['path']} (working directory {t['cwd']!r}, outcome {v['out']}, disturbance {sorted(v['stats']['fired'])}): {dd[1]}"), digest=tuple(dig), behaviour=ops.digest(*beh))
        return res
    if sc.get("missing_dir"):
        res.update(digest=tuple(dig), behaviour=ops.digest(*beh))
        return res
    # 3. reading
    g = sc["rdist"]
    if g["kind"] == "cut" and os.path.isfile(os.path.join(root, t["path"])):
        p = os.path.join(root, t["path"])
        os.truncate(p, int(g["frac"] * os.path.getsize(p)))
    before = core.tree(root)
    plan = {}
    n = 0
    if g["kind"] == "op":
        q = core.phase(ph_call, root, sc, "read", none, None, None)
        if q.ok:
            plan = ops.place(g, q.value["stats"], 0, 0)
    elif g["kind"] == "interrupt":
        n = lines_of(root, sc, "read")
    r = core.phase(ph_call, root, sc, "read", g, plan, 1 + int(g.get("frac", 0) * n))
    res["phases"] += 2
    if r.ok:
        v = r.value
        for k, x in v["stats"]["fired"].items():
            res["fired"][k] = res["fired"].get(k, 0) + x
        res["ops"] += v["stats"]["total"]
        dig += [v["stats"]["digest"], v["out"]]
        beh += [g["kind"], v["out"], bool(v["stats"]["fired"])]
        res["outcome"] += ", read " + v["out"]
    dd = diff(before, core.tree(root))
    if dd:
        res["violation"] = ops.V("read-" + dd[0], name, f"reading {t['path']}: {dd[1]}")
    elif r.ok and r.value["ev"]:
        res["violation"] = ops.V("read-modifies", name, f"reading {t['path']} performed {r.value['ev'][:3]}")
    res["digest"] = tuple(dig)
    res["behaviour"] = ops.digest(*beh)
    return res


def plant_dirs(root, sc):
    for w in ("home", "tmp", "empty dir"):
        os.makedirs(os.path.join(root, w), exist_ok=True)


def plant_n(root, sc, own):
    r = random.Random(sc["nseed"])
    t = sc["target"]
    stem, ext = os.path.splitext(t["path"])
    d = os.path.dirname(t["path"])
    b = os.path.basename(stem)
    names = {stem + e for e in r.sample(EXTS, 10)} | {t["path"] + e for e in r.sample([".tmp", "~", ".bak", ".swp", ".lock", ".part", ".old"], 2)} | {os.path.join(d, "." + os.path.basename(t["path"]))}
    for w in sorted({t["cwd"], d, "home", "tmp", os.path.dirname(d)}):
        for e in r.sample(EXTS, 3) + [ext]:
            names.add(os.path.normpath(os.path.join(w, b + e)))
        names.add(os.path.normpath(os.path.join(w, r.choice(["data.h5", "tmp.bin", "mesh.xml", "notes.txt"]))))
    for n in sorted(names):
        p = os.path.join(root, n)
        if n in own or os.path.isdir(p):
            continue
        with open(p, "wb") as f:
            f.write(b"neighbour " + n.encode() + r.randbytes(r.choice([0, 3, 5000])))
        os.chmod(p, r.choice([0o644, 0o600, 0o444]))


def shrink(sc):
    for k in ("wdist", "rdist"):
        if sc[k]["kind"] != "none":
            yield dict(sc, **{k: {"kind": "none"}})
    for k in ("old", "missing_dir"):
        if sc.get(k):
            yield dict(sc, **{k: False})
    yield from ops.shrink_common(sc)
