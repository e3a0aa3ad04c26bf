"""P15: output depends only on the mesh, the options and the target name."""
import ctypes
import os
import re

import numpy as np

from checks import p04
from sim import core, meshgen, ops, zygote
from sim.formats import READ as CFGS

NAMES = sorted(CFGS)
RUNS = {"quick": 3500, "thorough": 250000}
LEVEL = "exploration"
RULE = ("a run = (format configuration, mesh, target) written and read twice: in the worker under a standing clock, and in a process with another hash seed, time zone and environment, another working directory and way of addressing the target, "
        "a clock that starts elsewhere, runs, stands, jumps or runs backwards, freshly allocated memory holding other bytes, and other print options of numpy; bytes written (time stamps masked where a format has one) and meshes read (in part from files damaged in between) are compared; "
        "distinct by (configuration, start-up setting, clock, what the mesh contains); non-trivial = the write succeeded")
ASSUMPTIONS = ["time stamps: the date-time text in the headers of PLY, OBJ, FLAC3D, Exodus and H5M files and the time field of gzip headers may follow the clock; Exodus and H5M files are then compared by the mesh they hold"]
STAMP = re.compile(rb"\d{4}-\d\d-\d\d[T ]\d\d:\d\d:\d\d(\.\d+)?|[A-Z][a-z]{2} [A-Z][a-z]{2} [ 0-9]\d \d\d:\d\d:\d\d \d{4}")
DAY = 86400 * 10**9


def gen(rng, i, tier):
    name = ops.pick_cfg(rng, i, NAMES)
    cfg = CFGS[name]
    t = ops.draw_target(rng, cfg, 0.5)
    clock = rng.choice([{"step": 0}, {"offset": rng.randrange(-40 * 365, 70 * 365) * DAY, "step": rng.choice([0, 1, 10**6, 10**9, DAY])}, {"offset": rng.randrange(10**18), "step": -rng.choice([1, 10**6, 10**9])}])
    return {"cfg": name, "spec": meshgen.gen_spec(rng, cfg, size=rng.choice(["tiny", "small", "small", "medium"])), "target": t, "setting": rng.randrange(len(zygote.ENV)), "clock": clock, "cwd": rng.choice([".", "elsewhere", "d/e e/f"]),
            "how": rng.choice(["abs", "rel", "pathlib", "rel-pathlib"]), "perturb": rng.choice([0, 0x55, 0xAA, 0xFF, 0x01]), "perturb0": rng.choice([0, 0x33]), "print": rng.random() < 0.4,
            "short": ops.draw_short(rng, 0.2), **({"damage": p04.draw_damage(rng)} if rng.random() < 0.4 and (cfg.reader and not ops.is_hdf(name)) else {})}


def settle(sc, other):
    """Process-wide settings that must not matter."""
    ctypes.CDLL(None).mallopt(-6, sc["perturb"] if other else sc["perturb0"])  # M_PERTURB: what fresh memory holds
    for n in range(8, 1024, 8):  # numpy keeps small blocks for itself
        _ = [np.full(n, sc["perturb"] if other else sc["perturb0"], "u1") for _ in range(7)]
    if other and sc["print"]:
        np.set_printoptions(precision=2, threshold=3, linewidth=20, suppress=True, sign="+")
    if os.environ.get("TZ"):
        import time

        time.tzset()


def ph_write(root, sc, other):
    t = sc["target"]
    if other:
        t = dict(t, cwd=sc["cwd"], how=sc["how"])
    core.install(root, {"clock": sc["clock"] if other else {"step": 0}, "short": sc["short"] if other else None})
    settle(sc, other)
    ops.stage(root, t)
    mesh = meshgen.build(sc["spec"])
    o, v = core.call(lambda: ops.invoke_write(root, dict(sc, target=t), mesh))
    return {"out": o, "info": v if o == "raise" else None, "stats": core.stats()}


def ph_read(root, sc, other):
    t = sc["target"]
    if other:
        t = dict(t, cwd=sc["cwd"], how=sc["how"])
    core.install(root, {"clock": sc["clock"] if other else {"step": 0}, "short": sc["short"] if other else None})
    settle(sc, other)
    ops.stage(root, t)
    o, v = core.call(lambda: ops.invoke_read(root, dict(sc, target=t)))
    return {"out": o, "info": v if o == "raise" else None, "snap": meshgen.snap_mesh(v) if o == "ok" else None, "stats": core.stats()}


def files(root):
    return {f: v[1] for f, v in core.tree(root).items() if v[0] != "dir"}


def run(sc, disk):
    name = sc["cfg"]
    cfg = CFGS[name]
    R = os.path.join(disk.root, "r")
    os.makedirs(R)
    res = {"phases": 2, "fired": {}, "ops": 0, "nontrivial": False, "behaviour": ops.digest(name, sc["setting"], sorted(sc["clock"]), sc["clock"].get("step"), sc["perturb"], sc["print"], sc["cwd"], sc["how"], ops.shape(sc["spec"]))}
    a = core.phase(ph_write, R, sc, False)
    if not a.ok:
        return dict(res, outcome="died", digest=(a.code, a.sig))
    fa = files(R)
    reader = cfg.reader and a.value["out"] == "ok"
    if reader and sc.get("damage"):
        p04.damage(R, sc)
    sa = core.phase(ph_read, R, sc, False) if reader else None
    sb = zygote.phase(sc["setting"], ph_read, R, sc, True) if reader else None
    for dp, dn, fn in os.walk(R):
        for f in fn:
            os.unlink(os.path.join(dp, f))
    b = zygote.phase(sc["setting"], ph_write, R, sc, True)
    res["phases"] += 3
    if not b.ok:
        return dict(res, outcome="died", digest=(b.code, b.sig), violation=ops.V("died", name, f"the process dies or hangs in another environment (exit {b.code}, signal {b.sig})"))
    fb = files(R)
    va, vb = a.value, b.value
    res["fired"] = {"hash seed and environment": 1, **({"clock": vb["stats"]["clock_calls"]} if vb["stats"]["clock_calls"] else {}), **({"memory contents": 1} if sc["perturb"] else {}), **vb["stats"]["fired"]}
    res["nontrivial"] = va["out"] == "ok"
    res["outcome"] = va["out"]
    msg = None
    if va["out"] != vb["out"]:
        msg = f"the write {'succeeds' if vb['out'] == 'ok' else 'fails: ' + str(vb['info'])} in one environment, not in the other ({va['info']})"
    elif va["out"] == "ok":
        if sorted(fa) != sorted(fb):
            msg = f"files {sorted(fb)} instead of {sorted(fa)}"
        for f in sorted(fa):
            if msg or fa[f] == fb[f]:
                continue
            if f.lower().endswith(".gz") and fa[f][:4] == fb[f][:4] and fa[f][8:] == fb[f][8:]:
                continue
            if cfg.timestamped and STAMP.sub(b"T", fa[f]) == STAMP.sub(b"T", fb[f]):
                continue
            if cfg.timestamped and ops.is_hdf(name) and not sc.get("damage"):
                x = core.phase(ph_read, R, sc, False)
                res["phases"] += 1
                if x.ok and x.value["out"] == sa.value["out"] and (x.value["out"] != "ok" or meshgen.diff_snap(sa.value["snap"], x.value["snap"]) is None):
                    continue
            n = next((k for k, (p, q) in enumerate(zip(fa[f], fb[f])) if p != q), min(len(fa[f]), len(fb[f])))
            msg = f"the bytes of {f} differ from offset {n} on: {fb[f][n:n + 30]!r} instead of {fa[f][n:n + 30]!r}"
    if msg is None and reader:
        if not sa.ok or not sb.ok:
            msg = None if not sa.ok else f"reading dies in another environment (exit {sb.code}, signal {sb.sig})"
        elif sa.value["out"] != sb.value["out"]:
            msg = f"reading: {sb.value['out']} {sb.value['info']} instead of {sa.value['out']} {sa.value['info']}"
        elif sa.value["out"] == "ok":
            d = meshgen.diff_snap(sa.value["snap"], sb.value["snap"])
            msg = d and f"a different mesh is read: {d}"
    if msg:
        res["violation"] = ops.V("environment", name, msg)
    res["digest"] = (va["out"], vb["out"], msg, ops.digest(sorted(fa.items())))
    return res


def shrink(sc):
    if sc.get("damage"):
        yield {k: v for k, v in sc.items() if k != "damage"}
    for kw in ({"clock": {"step": 0}}, {"perturb": 0}, {"perturb0": 0}, {"print": False}, {"short": None}, {"cwd": "."}, {"how": "abs"}):
        if any(sc[k] != v for k, v in kw.items()):
            yield dict(sc, **kw)
    yield from ops.shrink_common(sc)
