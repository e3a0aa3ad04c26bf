"""P01: a write that returns is complete on disk and reads back as the mesh written."""
from sim import core, formats, meshgen, ops
from sim.formats import ALL as CFGS

NAMES = sorted(n for n, c in CFGS.items() if c.reader and not c.foreign)
RUNS = {"quick": 18000, "thorough": 400000}
LEVEL = "exploration"
RULE = ("a run = (format configuration, random supported mesh, entry point, file name and directory, older content of target and companions, split/interrupted "
        "transfers while writing and reading); the writer process is killed the instant the call returns and a fresh process reads; distinct by (configuration, mesh "
        "shape, older content, transfer pattern), non-trivial = the mesh has at least one cell and either a storage perturbation or data attached")
ASSUMPTIONS = ["process death, not power loss: what was handed to the operating system survives", "stdio streams (numpy tofile/fromfile) see short transfers but not EINTR, as on Linux regular files"]


def gen(rng, i, tier):
    name = ops.pick_cfg(rng, i, NAMES)
    cfg = CFGS[name]
    sc = {"cfg": name, "spec": meshgen.gen_spec(rng, cfg), "target": ops.draw_target(rng, cfg), "stale": ops.draw_stale(rng),
          "api": rng.choice(["write", "write", "mesh.write", "points_cells"])}
    if sc["spec"].get("sp") and sc["api"] == "points_cells":  # which takes no more than the common data
        sc["api"] = "write"
    s = ops.draw_short(rng, spec=sc["spec"])
    sc["wplan"] = {"short": s} if s else {}
    s = ops.draw_short(rng, spec=sc["spec"])
    sc["rplan"] = {"short": s} if s else {}
    return sc


def run(sc, disk):
    name = sc["cfg"]
    ph = 2
    if sc.get("stale"):
        core.phase(ops.ph_stale, disk.root, sc)
        ph = 3
    kind = {}
    if CFGS[name].fmt == "dolfin-xml" and (sc.get("stale") or {}).get("kind", "").startswith("older"):
        old = {x[0] for x in ops.stale_spec(sc).get("cd", [])}
        if old - {x[0] for x in sc["spec"].get("cd", [])}:
            kind = {"kind": "older-sidecar"}
    w = core.phase(ops.ph_write, disk.root, sc, sc["wplan"])
    res = {"phases": ph, "behaviour": ops.digest(name, ops.shape(sc["spec"]), (sc.get("stale") or {}).get("kind"), sorted((sc["wplan"].get("short") or {}).items())[1:2],
                                                 bool(sc["rplan"])),
           "nontrivial": bool(sc["spec"]["blocks"]) and bool(sc.get("stale") or sc["wplan"] or sc["rplan"] or sc["spec"].get("pd") or sc["spec"].get("cd"))}
    if not w.ok:
        res.update(outcome="writer died", violation=ops.V("write-died", name, f"the writing process died or hung: exit {w.code} signal {w.sig}"), digest=(w.code, w.sig))
        return res
    res.update(fired=ops.merge_fired(w.value["stats"]), ops=w.value["stats"]["total"])
    if w.value["out"] != "ok":
        inf = w.value["info"]
        res.update(outcome="write refused", violation=ops.V("write-raised", name, f"writing a supported mesh failed: {inf['type']}: {inf['msg']} ({inf['loc']})", loc=inf["loc"]),
                   digest=(w.value["stats"]["digest"], inf["type"]))
        return res
    r = core.phase(ops.ph_read_compare, disk.root, sc, sc["rplan"])
    if not r.ok:
        res.update(outcome="reader died", violation=ops.V("read-died", name, f"the reading process died or hung: exit {r.code} signal {r.sig}"), digest=(w.value["stats"]["digest"], r.code))
        return res
    res["ops"] += r.value["stats"]["total"]
    res["fired"] = ops.merge_fired(w.value["stats"], r.value["stats"])
    res["digest"] = (w.value["stats"]["digest"], r.value["stats"]["digest"], r.value["out"], r.value["diff"])
    if r.value["out"] != "ok":
        inf = r.value["info"]
        res.update(outcome="unreadable", violation=ops.V("unreadable", name, f"the file just written cannot be read: {inf['type']}: {inf['msg']} ({inf['loc']})", loc=inf["loc"], **kind))
    elif r.value["diff"]:
        res.update(outcome="different", violation=ops.V("different", name, f"what was read differs: {r.value['diff']}", diff=r.value["diff"], **kind))
    else:
        res["outcome"] = "same mesh"
    return res


def shrink(sc):
    return ops.shrink_common(sc)
