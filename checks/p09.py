"""P09: concurrent calls behave as if made one after another."""
import os

from sim import calls, core, meshgen, ops, threads
from sim.formats import CFGS

NAMES = sorted(CFGS)
RUNS = {"quick": 6000, "thorough": 200000}
LEVEL = "exploration"
RULE = ("a run = (two to four calls of any formats on different files, possibly writing one shared mesh object or reading one shared file, and a schedule: the sequence of statements of meshio at which control passes to which "
        "other thread, from single switches to one every few statements); each call's result (mesh returned, bytes of all files, or exception) is compared with the same call made alone in a fresh process; distinct by "
        "(calls, switch sites); non-trivial = at least one switch happened between two live calls")
ASSUMPTIONS = ["switches happen between statements of meshio; a thread inside numpy, HDF5 or netCDF is not preempted (the interpreter lock and the HDF5 library lock are held there)",
               "a shared mesh carries no two-component data and no sets: those are the recorded finding of P03"]
STUB = ["thread scheduler (baton passing between real threads)", "system calls on files below the scratch root", "clock (stands still)"]


def gen(rng, i, tier):
    k = rng.choice([2, 2, 2, 3, 4])
    first = ops.pick_cfg(rng, i, NAMES)
    mode = rng.choice(["any", "any", "same format", "shared mesh", "shared mesh", "shared mesh, same format", "shared mesh, same format", "shared file"])
    shared = mode.startswith("shared mesh")
    opsl = []
    spec = None
    if shared:
        for _ in range(3):
            spec = meshgen.gen_spec(rng, CFGS[first], size=rng.choice(["tiny", "small"]))
            if spec.get("pd") or spec.get("cd"):
                break
        for key in ("pd", "cd"):
            spec[key] = [d for d in spec.get(key, []) if d[2] != 2]
        for key in ("ps", "cs", "sp"):
            spec.pop(key, None)
    for j in range(k):
        names = [first] if j == 0 or mode.endswith("same format") else NAMES
        if shared:
            op = calls.draw(rng, names, j, kinds=("write",), spec=spec)
            op["shared"] = True
        elif mode == "shared file" and j and opsl[0]["kind"] == "read":
            op = dict(opsl[0])
        else:
            op = calls.draw(rng, names, j, kinds=("write", "read"))
        opsl.append(op)
    n = rng.choice([1, 2, 4, 15, 100, 1000])
    sw = sorted([round(rng.random(), 5), rng.randrange(4)] for _ in range(n))
    return {"ops": opsl, "mode": mode, "sw": sw}


def ph_together(root, sc, total):
    core.install(root, calls.STILL)
    os.chdir(root)
    shared = None
    fns = []
    for op in sc["ops"]:
        mesh = None
        if op["kind"] == "write":
            if op.get("shared"):
                if shared is None:
                    shared = meshgen.build(op["spec"])
                mesh = shared
            else:
                mesh = meshgen.build(op["spec"])
        fns.append(_fn(root, op, mesh))
    s = threads.Sched(fns, [[1 + int(f * total), c] for f, c in sc["sw"]])
    core.lib().sim_arm(1)
    res = s.run()
    core.lib().sim_arm(0)
    return {"obs": res, "trace": s.trace, "steps": s.step, "stats": core.stats()}


def _fn(root, op, mesh):
    def f():
        try:
            v = calls.perform(root, op, mesh)
            return calls.observe(op, "ok", v)
        except BaseException as e:
            return calls.observe(op, "raise", core.exc_info(e))

    return f


def ph_count(root, op):
    """The call alone, with its statements counted."""
    core.install(root, calls.STILL)
    os.chdir(root)
    mesh = meshgen.build(op["spec"]) if op["kind"] == "write" else None
    s = threads.Sched([_fn(root, op, mesh)], [])
    core.lib().sim_arm(1)
    r = s.run()
    core.lib().sim_arm(0)
    return {"obs": r[0], "lines": s.lines[0]}


def run(sc, disk):
    root = disk.root
    for op in sc["ops"]:
        calls.prepare(root, op)
    want, wfiles, total = [], [], 0
    for op in sc["ops"]:
        a = core.phase(ph_count, root, op)
        if not a.ok:
            return {"outcome": "alone: died", "nontrivial": False, "digest": (a.code, a.sig)}
        want.append(a.value["obs"])
        total += a.value["lines"]
        wfiles.append(calls.own_files(root, op))
        if op["kind"] == "write":  # empty the stage again
            d = os.path.join(root, os.path.dirname(op["target"]["path"]))
            for f in os.listdir(d):
                os.unlink(os.path.join(d, f))
    r = core.phase(ph_together, root, sc, total)
    res = {"phases": 2 * len(sc["ops"]) + 1, "fired": {}, "ops": 0, "nontrivial": False}
    cf = "+".join(calls.describe(o) for o in sc["ops"])
    if not r.ok:
        res.update(outcome="died", digest=(r.code, r.sig), violation=ops.V("died", cf, f"the process died (exit {r.code}, signal {r.sig})"))
        return res
    v = r.value
    res["ops"] = v["stats"]["total"]
    res["nontrivial"] = bool(v["trace"])
    res["fired"] = {"thread switch": len(v["trace"])} if v["trace"] else {}
    res["behaviour"] = ops.digest([(o["kind"], o["cfg"]) for o in sc["ops"]], [(t[2], t[3]) for t in v["trace"]][:50])
    res["digest"] = (v["stats"]["digest"], v["trace"][:200], [o[0] for o in v["obs"]])
    res["outcome"] = sc["mode"] + ": " + ",".join(o[0] for o in v["obs"])
    for op, w, g, wf in zip(sc["ops"], want, v["obs"], wfiles):
        d = calls.differs(op, w, g, wf if op["kind"] == "write" and w[0] == "ok" else None, calls.own_files(root, op))
        if d:
            res["violation"] = ops.V("interference", op["cfg"], f"{len(sc['ops'])} calls at the same time ({cf}, {sc['mode']}), {len(v['trace'])} switches, the last at {v['trace'][-1:]}: {d}")
            break
    return res


def shrink(sc):
    for j in range(len(sc["ops"])):
        if len(sc["ops"]) > 2:
            yield dict(sc, ops=sc["ops"][:j] + sc["ops"][j + 1:])
    n = len(sc["sw"])
    if n > 1:
        for a, b in ((0, n // 2), (n // 2, n)):
            yield dict(sc, sw=sc["sw"][:a] + sc["sw"][b:])
        if n <= 20:
            for j in range(n):
                yield dict(sc, sw=sc["sw"][:j] + sc["sw"][j + 1:])
    for j, op in enumerate(sc["ops"]):
        if op.get("shared") or sc["mode"] == "shared file":
            continue
        for s in ops.shrink_spec(op["spec"], CFGS[op["cfg"]]):
            yield dict(sc, ops=sc["ops"][:j] + [dict(op, spec=s)] + sc["ops"][j + 1:])
