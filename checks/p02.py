"""P02: a storage failure while writing is never reported as success."""
from sim import core, formats, meshgen, ops
from sim.formats import READ as CFGS

NAMES = sorted(n for n, c in CFGS.items() if not c.foreign)
RUNS = {"quick": 7000, "thorough": 400000}
LEVEL = "exploration"
RULE = ("a run = (format configuration, random supported mesh, older content, one storage fault placed relative to the undisturbed write: a full disk at any byte, or an errno at any "
        "open/write/close/truncate/read, once or from then on, with or without partial and interrupted transfers); distinct by (configuration, fault operation, errno, position in the operation sequence, outcome); "
        "non-trivial = the fault actually fired")
ASSUMPTIONS = ["an error returned by close() after all data was accepted loses no data, so a success is then accepted if the file is right",
               "the netCDF/HDF5 C libraries may crash the process after a failed flush (seen in the library, also with a real RLIMIT_FSIZE instead of the simulated storage): that reports no success and is accepted for the HDF5-based formats"]


def gen(rng, i, tier):
    name = ops.pick_cfg(rng, i, NAMES)
    cfg = CFGS[name]
    u = rng.random()
    spec = meshgen.gen_spec(rng, cfg, size="small" if u < 0.6 else "tiny" if u < 0.75 else "medium")
    sc = {"cfg": name, "spec": spec, "target": ops.draw_target(rng, cfg, 0.8), "stale": ops.draw_stale(rng, 0.15), "fault": ops.draw_wfault(rng), "blk": ops.draw_blk(rng), "short": ops.draw_short(rng, 0.25, spec)}
    if sc["short"] and rng.random() < 0.5:
        sc["fault"] = {"kind": "none"}
    if cfg.fmt == "dolfin-xml" and (sc["stale"] or {}).get("kind", "").startswith("older"):
        sc["stale"] = None  # older mesh functions stay behind: P01's business (known finding)
    return sc


def run(sc, disk):
    name = sc["cfg"]
    cfg = CFGS[name]
    blk = sc.get("blk") or 0
    d = core.phase(ops.ph_write, disk.root, sc, {"blk": blk})
    if not d.ok or d.value["out"] != "ok":
        return {"outcome": "undisturbed write failed", "nontrivial": False, "digest": "x"}  # P01's business
    plan = ops.place(sc["fault"], d.value["stats"], ops.tree_bytes(disk.root), blk)
    if sc.get("short"):  # partial transfers, which are no errors, as well
        plan["short"] = sc["short"]
    disk.clear()
    if sc.get("stale"):
        core.phase(ops.ph_stale, disk.root, sc)
    w = core.phase(ops.ph_write, disk.root, sc, plan)
    if not w.ok and w.sig and not w.hung and ops.is_hdf(name):
        # netCDF-C/HDF5 can crash after a failed flush: no success was reported
        return {"outcome": "library crash", "nontrivial": True, "behaviour": ops.digest(name, "crash"), "phases": 2, "digest": ("sig", w.sig)}
    if not w.ok:
        return {"outcome": "died", "violation": ops.V("died", name, f"the writing process died instead of raising: exit {w.code} signal {w.sig}"), "digest": (w.code, w.sig), "phases": 2}
    st = w.value["stats"]
    fired = st["fired"]
    hit = bool(fired)
    res = {"phases": 2, "fired": fired, "ops": st["total"] + d.value["stats"]["total"], "nontrivial": hit,
           "behaviour": ops.digest(name, sorted(fired), plan.get("faults", [{}])[0].get("nth", "cap"), w.value["out"]), "digest": (st["digest"], w.value["out"])}
    if w.value["out"] == "raise":
        res["outcome"] = "raised" if hit else "raised without fault"
        return res
    if not hit:
        res["outcome"] = "not reached"
        return res
    if not cfg.reader:
        # no reader: the bytes must be those of the undisturbed write
        got = core.tree(disk.root)
        disk.clear()
        d2 = core.phase(ops.ph_write, disk.root, sc)
        want = core.tree(disk.root)
        same = got.get(sc["target"]["path"]) == want.get(sc["target"]["path"])
        res["outcome"] = "returned, complete" if same else "returned, incomplete"
        if not same:
            res["violation"] = ops.V("silent", name, f"the write returned normally although {sorted(fired)} occurred, and the file is incomplete")
        return res
    r = core.phase(ops.ph_read_compare, disk.root, sc)
    res["phases"] = 3
    bad = None
    if not r.ok:
        bad = f"the reader died (exit {r.code} signal {r.sig})"
    elif r.value["out"] != "ok":
        bad = f"the file cannot be read ({r.value['info']['type']}: {r.value['info']['msg']})"
    elif r.value["diff"]:
        bad = r.value["diff"]
    res["outcome"] = "returned, complete" if bad is None else "returned, incomplete"
    if bad:
        res["violation"] = ops.V("silent", name, f"the write returned normally although {sorted(fired)} occurred: {bad}")
    return res


def shrink(sc):
    if sc.get("short"):
        yield dict(sc, short=None)
    yield from ops.shrink_common(sc)
    if sc["fault"]["kind"] != "none":
        yield from ops.shrink_fault(sc)
