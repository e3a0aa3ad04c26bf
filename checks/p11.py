"""P11: once faults stop, repeating a failed write or read succeeds with the same result."""
import os

from checks.p10 import plain
from sim import calls, core, interrupt, meshgen, ops
from sim.formats import CFGS

NAMES = sorted(CFGS)
RUNS = {"quick": 4500, "thorough": 250000}
LEVEL = "exploration"
RULE = ("a run = (format configuration, mesh, older content of the target, 1 to 3 attempts that are disturbed by a storage fault, a full disk, a crash of the process or an interrupt at any statement of meshio, "
        "each in the same process as the one before or in a new one) followed by the same call undisturbed; its outcome, files or mesh are compared with those of the call made once on an equal disk that met no fault; "
        "distinct by (configuration, read or write, kinds of disturbance, where they hit, process boundaries); non-trivial = at least one disturbance fired")
ASSUMPTIONS = ["a full disk or failing device is healthy again before the last attempt", "process crash, not power loss: what was handed to the kernel survives, in order",
               "after a storage failure inside the HDF5/netCDF C library, the last attempt is made in a new process (the library keeps failed files open, outside meshio's control)"]


def gen(rng, i, tier):
    name = ops.pick_cfg(rng, i, NAMES)
    cfg = CFGS[name]
    kind = "read" if cfg.reader and rng.random() < 0.35 else "write"
    sc = {"cfg": name, "kind": kind, "spec": meshgen.gen_spec(rng, cfg, size=rng.choice(["tiny", "small", "small", "medium"])), "target": ops.draw_target(rng, cfg, 0.7),
          "blk": ops.draw_blk(rng), "stale": ops.draw_stale(rng, 0.4) if kind == "write" else None, "same": rng.random() < 0.5, "share": rng.random() < 0.5, "tries": []}
    if sc["stale"] and sc["stale"]["kind"] == "older-large":
        sc["stale"]["kind"] = "older"
    if sc["share"]:
        sc["spec"] = plain(sc["spec"])
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        u = rng.random()
        if u < 0.25:
            t = {"kind": "interrupt", "frac": round(rng.random(), 4), "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])}
        elif u < 0.5 and kind == "write":
            t = {"kind": "crash", "frac": rng.choice([round(rng.random(), 4), 0.9999]), "act": rng.choice(["torn", "crash", "crash_after"]), "part": round(rng.random(), 4), "op": rng.choice(["write", "write", "any"])}
        else:
            t = ops.draw_wfault(rng) if kind == "write" else ops.draw_rfault(rng)
        t["new"] = rng.random() < 0.4
        sc["tries"].append(t)
    return sc


def plan_of(sc, t, dry):
    blk = sc.get("blk") or 0
    if t is None or t["kind"] == "interrupt":
        p = {"blk": blk}
    elif t["kind"] == "crash":
        n = dry["stats"]["total"] if t["op"] == "any" else dry["stats"]["ops"].get("write", 0)
        f = {"op": t["op"], "nth": 1 + int(t["frac"] * n), "act": t["act"] if t["op"] == "write" or t["act"] != "torn" else "crash"}
        if f["act"] == "torn":
            f["arg"] = int(t["part"] * 1000)
        p = {"blk": blk, "faults": [f]}
    else:
        p = ops.place(t, dry["stats"], dry["bytes"], blk)
    return dict(p, clock={"step": 0})


def attempt(root, sc, t, dry, mesh):
    core.install(root, plan_of(sc, t, dry))
    ops.stage(root, sc["target"])
    fn = (lambda: ops.invoke_write(root, sc, mesh)) if sc["kind"] == "write" else (lambda: ops.invoke_read(root, sc))
    if t is not None and t["kind"] == "interrupt":
        with interrupt.Lines(at=1 + int(t["frac"] * dry["lines"]), exc=t["exc"]) as ln:
            o, v = core.call(fn)
        fired = {t["exc"]: 1} if ln.fired else {}
        where = ln.fired
    else:
        o, v = core.call(fn)
        fired = core.stats()["fired"]
        where = v["loc"] if o == "raise" else None
    return calls.observe(sc, o, v), fired, where, v if o == "raise" else None


def ph_dry(root, sc):
    core.install(root, {"blk": sc.get("blk") or 0, "clock": {"step": 0}})
    ops.stage(root, sc["target"])
    mesh = meshgen.build(sc["spec"]) if sc["kind"] == "write" else None
    with interrupt.Lines() as ln:
        o, v = core.call(lambda: calls.perform(root, sc, mesh))
    return {"obs": calls.observe(sc, o, v), "stats": core.stats(), "lines": ln.n}


def ph_tries(root, sc, tries, dry):
    """A few attempts in one process; None stands for the undisturbed one."""
    out = []
    mesh = None
    for t in tries:
        if sc["kind"] == "write" and (mesh is None or not sc["share"]):
            mesh = meshgen.build(sc["spec"])
        obs, fired, where, info = attempt(root, sc, t, dry, mesh)
        out.append((obs if t is None else obs[0], fired, where, info))
        if t is not None and t["kind"] == "interrupt":
            mesh = None
        if t is not None and t["kind"] == "crash":
            os._exit(core.CRASH)  # the crash point lay beyond the call: the process ends after it
    return out


def put(root, sc):
    """The state of the disk before the first attempt."""
    if sc["kind"] == "read":
        core.phase(calls._prep, root, sc)
    elif sc.get("stale"):
        core.phase(ops.ph_stale, root, sc)


def norm(tree):
    return {f: v for f, v in tree.items() if v[0] != "dir"}


def run(sc, disk):
    name = sc["cfg"]
    res = {"phases": 2, "fired": {}, "ops": 0, "nontrivial": False}
    D = os.path.join(disk.root, "x")
    os.makedirs(D)
    put(D, sc)
    before = norm(core.tree(D))
    d = core.phase(ph_dry, D, sc)
    if not d.ok:
        return dict(res, outcome="died undisturbed", digest=(d.code, d.sig))
    dry = d.value
    if dry["obs"][0] != "ok":
        return dict(res, outcome="refused", digest=("refused",) + dry["obs"][1:])
    want = norm(core.tree(D))
    dry["bytes"] = sum(len(v[1]) for v in want.values())
    disk.clear()
    os.makedirs(D)  # the same names again: the same paths in the files
    put(D, sc)
    if norm(core.tree(D)) != before:
        return dict(res, outcome="start differs", digest=("start",))
    # group the attempts by process
    groups, cur = [], []
    tries = sc["tries"]
    hdf = ops.is_hdf(name)
    for t in tries:
        if cur and (t["new"] or cur[-1]["kind"] == "crash" or hdf):
            groups.append(cur)
            cur = []
        cur.append(t)
    if sc["same"] and cur[-1]["kind"] != "crash" and not (hdf and cur[-1]["kind"] != "interrupt"):
        groups.append(cur + [None])
    else:
        groups += [cur, [None]]
    beh = [name, sc["kind"], [(t["kind"], t.get("op"), t.get("act")) for t in tries], [len(g) for g in groups]]
    dg = []
    final = None
    for g in groups:
        r = core.phase(ph_tries, D, sc, g, dry)
        res["phases"] += 1
        if not r.ok:
            if r.crashed and any(t and t["kind"] == "crash" for t in g):
                a = next(t for t in g if t and t["kind"] == "crash")["act"]
                res["fired"][a] = res["fired"].get(a, 0) + 1
                res["nontrivial"] = True
                dg.append("crashed")
                continue
            if g[-1] is None and (len(g) == 1 or not hdf):
                return dict(res, outcome="died", digest=(r.code, r.sig), violation=ops.V("died", name, f"after {beh[2]} {'the process' if len(g) == 1 else 'one process'} that repeats the {sc['kind']} dies or hangs (exit {r.code}, signal {r.sig})"))
            dg.append((r.code, r.sig))
            continue
        for obs, fired, where, info in r.value:
            for k, n in fired.items():
                res["fired"][k] = res["fired"].get(k, 0) + n
                res["nontrivial"] = True
            beh.append((sorted(fired), where))
        if g[-1] is None:
            final = r.value[-1]
    if final is None:
        return dict(res, outcome="no final", digest=tuple(dg))
    got, _, _, info = final
    dg.append(got[0])
    dif = calls.differs(sc, dry["obs"], got)
    if dif is None and sc["kind"] == "write":
        now = norm(core.tree(D))
        for f in sorted(set(want) | set(now)):
            if f not in now:
                dif = f"{f} is missing"
            elif f not in want:
                dif = f"{f} is left over from the failed attempt"
            elif now[f][1] != want[f][1]:
                dif = f"the bytes of {f} differ from those of an undisturbed write"
            if dif:
                break
    if dif:
        res["violation"] = ops.V("retry", name, f"{sc['kind']} repeated after {beh[2]}{' in the same process' if len(groups[-1]) > 1 else ''}: {dif}")
    res["outcome"] = "repeated"
    res["digest"] = tuple(dg) + (dif,)
    res["behaviour"] = ops.digest(*beh)
    return res


def shrink(sc):
    T = sc["tries"]
    for j in range(len(T)):
        if len(T) > 1:
            yield dict(sc, tries=T[:j] + T[j + 1:])
    for j, t in enumerate(T):
        for fr in (0.0, 0.5, 0.9999):
            if t.get("frac") not in (0.0, 0.5, 0.9999):
                yield dict(sc, tries=T[:j] + [dict(t, frac=fr)] + T[j + 1:])
        if t.get("sticky"):
            yield dict(sc, tries=T[:j] + [dict(t, sticky=0)] + T[j + 1:])
    for k in ("same", "share"):
        if sc[k]:
            yield dict(sc, **{k: False})
    yield from ops.shrink_common(sc)
