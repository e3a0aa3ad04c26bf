"""P05: a read under device faults returns the stored mesh or raises."""
from sim import core, meshgen, ops
from sim.formats import READ as CFGS

NAMES = sorted(n for n in CFGS if CFGS[n].reader)
RUNS = {"quick": 8000, "thorough": 400000}
LEVEL = "exploration"
RULE = ("a run = (format configuration, mesh, addressing, buffer size, up to four independent faulty reads: short and interrupted transfers, and an error from the k-th open, read or close, transient or "
        "permanent); the mesh a fault-free read of the same file returns is the oracle, compared to the last bit; distinct by (configuration, fault kinds and position, outcome); non-trivial = a fault fired")
ASSUMPTIONS = ["a failed read() leaves the file position unchanged and delivers no data"]


def gen(rng, i, tier):
    name = ops.pick_cfg(rng, i, NAMES)
    cfg = CFGS[name]
    sc = {"cfg": name, "spec": meshgen.gen_spec(rng, cfg, size=rng.choice(["tiny", "small", "small", "medium"] if rng.random() < 0.5 else ["small"])), "target": ops.draw_target(rng, cfg, 0.8),
          "blk": rng.choice([0, 16, 64, 512]), "faults": []}
    for _ in range(rng.randint(2, 4)):
        f = ops.draw_rfault(rng) if rng.random() < 0.8 else {"kind": "none"}
        f["short"] = ops.draw_short(rng, 0.3, sc["spec"])
        sc["faults"].append(f)
    return sc


def run(sc, disk):
    name = sc["cfg"]
    w = core.phase(ops.ph_write, disk.root, sc)
    res = {"phases": 2, "fired": {}, "ops": 0, "nontrivial": False}
    if not w.ok or w.value["out"] != "ok":
        return dict(res, outcome="not written", digest=(w.code, w.sig))
    g = core.phase(ops.ph_read_snap, disk.root, sc, {"blk": sc["blk"] or 0})
    if not g.ok or g.value["out"] != "ok":
        return dict(res, outcome="good file not read", digest=(g.code, g.sig))
    want = g.value["snap"]
    dg, beh = [], [name]
    for f in sc["faults"]:
        plan = {"blk": sc["blk"] or 0} if f["kind"] == "none" else ops.place(f, g.value["stats"], 0, sc["blk"] or 0)
        if f.get("short"):
            plan["short"] = f["short"]
        r = core.phase(ops.ph_read_snap, disk.root, sc, plan)
        res["phases"] += 1
        if not r.ok:
            dg.append((r.code, r.sig))
            res["outcome"] = "hang" if r.hung else "died"
            if r.hung:
                res["violation"] = ops.V("hang", name, f"the read does not end after {f}")
                break
            continue
        v = r.value
        st = v["stats"]
        res["ops"] += st["total"]
        for k, n in st["fired"].items():
            res["fired"][k] = res["fired"].get(k, 0) + n
        res["nontrivial"] |= bool(st["fired"])
        res["outcome"] = ("faulty: " if st["fired"] else "undisturbed: ") + v["out"]
        beh += [sorted(st["fired"]), int(f.get("frac", 0) * 20), v["out"], (v["info"] or {}).get("loc")]
        d = meshgen.diff_snap(want, v["snap"]) if v["out"] == "ok" else None
        dg.append((st["digest"], v["out"], d))
        if d:
            res["violation"] = ops.V("wrong", name, f"a read disturbed by {sorted(st['fired'])} returned a different mesh: {d}")
            break
        if v["out"] != "ok" and not any(":" in k and not k.endswith("EINTR") for k in st["fired"]):
            res["violation"] = ops.V("spurious", name, f"short or interrupted transfers made the read fail: {v['info']['type']} {v['info']['msg']} ({v['info']['loc']})")
            break
    res["digest"] = tuple(dg)
    res["behaviour"] = ops.digest(*beh)
    return res


def shrink(sc):
    for k in range(len(sc["faults"])):
        if len(sc["faults"]) > 1:
            yield dict(sc, faults=[sc["faults"][k]])
        f = sc["faults"][k]
        if len(sc["faults"]) == 1:
            if f.get("short"):
                yield dict(sc, faults=[dict(f, short=None)])
            if f.get("sticky"):
                yield dict(sc, faults=[dict(f, sticky=0)])
            for fr in (0.0, 0.5, 0.9999):
                if f.get("frac") not in (None, 0.0, 0.5, 0.9999):
                    yield dict(sc, faults=[dict(f, frac=fr)])
    yield from ops.shrink_common(sc)
