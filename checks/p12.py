"""P12: an XDMF time series reads back step by step as it was written."""
import os
import random

import numpy as np

from sim import core, formats, interrupt, meshgen, ops
from sim.formats import CFGS

FMT = ["XML", "Binary", "HDF"]
RUNS = {"quick": 5000, "thorough": 300000}
LEVEL = "exploration"
RULE = ("a run = (data format, mesh, 0 to 14 steps with their own times and data, how the target is addressed, transfer sizes, calls that are refused in between, one or two series written at the same time, and possibly one storage "
        "fault, full disk, crash, interrupt at a statement of meshio or exception in the caller's code), then a new process reading steps in a drawn order, possibly under read faults and with a second reader interleaved; "
        "distinct by (data format, number of steps, cell types, kinds of data, disturbance and where it hit, outcome of the reader); non-trivial = at least one step written")
ASSUMPTIONS = ["runs with faults start on a fresh target", "process crash, not power loss"]


def series(rng, i, k):
    f = FMT[i % 3]
    cfg = CFGS[f"xdmf-{f}"]
    spec = meshgen.gen_spec(rng, cfg, size=rng.choice(["tiny", "small", "small", "medium"]))
    spec.pop("fd", None)
    names = [d[0] for d in spec.get("pd", [])] + [d[0] for d in spec.get("cd", [])]
    steps = []
    t = 0.0
    for j in range(rng.choice([0, 1, 2, 3, 3, 4, 6, 11, 14])):
        t = rng.choice([t + 0.1, t + rng.random(), t, j, rng.uniform(-1e6, 1e6), 10.0 ** rng.randint(-300, 300), 1 / 3.0 + j, -0.0])
        st = {"t": t, "seed": rng.randrange(2**32), "pd": [d for d in spec.get("pd", []) if rng.random() < 0.85], "cd": [d for d in spec.get("cd", []) if rng.random() < 0.85]}
        if rng.random() < 0.1:
            st["refused"] = rng.choice(["type", "shape"])
        if rng.random() < 0.15:
            st["extra"] = True
        steps.append(st)
    return {"fmt": f, "spec": spec, "steps": steps, "form": rng.choice(["blocks", "blocks", "tuples"]), "early": rng.random() < 0.1, "inplace": rng.random() < 0.4,
            "path": rng.choice(["ts.xdmf", "ts.xdmf", "sub/t s.xdmf", "run.v1.xdmf", "Ünï.xmf"]) if k == 0 else "zz.xdmf", "how": rng.choice(["abs", "abs", "rel", "pathlib"])}


def gen(rng, i, tier):
    sc = {"series": [series(rng, i, 0)], "blk": ops.draw_blk(rng), "wshort": ops.draw_short(rng, 0.3), "rshort": ops.draw_short(rng, 0.3), "dist": None, "rfault": None,
          "order": rng.randrange(2**32), "cwd": rng.choice([".", "elsewhere"])}
    if rng.random() < 0.3:
        sc["series"].append(series(rng, rng.randrange(3), 1))
    u = rng.random()
    if u < 0.5:
        v = rng.random()
        if v < 0.4:
            sc["dist"] = ops.draw_wfault(rng)
        elif v < 0.65:
            sc["dist"] = {"kind": "crash", "frac": rng.choice([round(rng.random(), 4), 0.9999]), "act": rng.choice(["torn", "crash", "crash_after"]), "part": round(rng.random(), 4), "op": rng.choice(["write", "any"])}
        elif v < 0.85:
            sc["dist"] = {"kind": "interrupt", "frac": round(rng.random(), 4), "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])}
        else:
            sc["dist"] = {"kind": "caller", "step": rng.randint(0, 5)}
    elif u < 0.7:
        sc["rfault"] = ops.draw_rfault(rng)
    elif u < 0.8:
        sc["again"] = True  # an older series at the same path
    return sc


def base(s):
    return meshgen.build(dict(s["spec"], pd=[], cd=[]))


def step_data(s, st, m):
    x = meshgen.build(dict(s["spec"], seed=st["seed"], pd=st["pd"], cd=st["cd"]))
    pd, cd = dict(x.point_data), dict(x.cell_data)
    if st.get("extra"):
        pd["extra"] = np.arange(len(m.points)) * 0.5 + st["seed"] % 7
    return pd, cd


def addr(root, s):
    return ops.fpath(root, {"path": s["path"], "how": s["how"]})


class Caller(Exception):
    pass


def keep(bufs, key, a):
    b = bufs.get(key)
    if b is None or b.shape != a.shape or b.dtype != a.dtype or not b.flags.writeable:
        bufs[key] = a
        return a
    b[...] = a
    return b


def session(root, sc, log):
    """Write the series; log[k] is the list of step numbers whose write_data returned."""
    import meshio

    S = sc["series"]
    ws, gens = [], []

    def writer(k, s):
        m = base(s)
        bufs = {}
        dist = sc["dist"]
        with meshio.xdmf.TimeSeriesWriter(addr(root, s), s["fmt"]) as w:
            if s["early"]:
                try:
                    w.write_data(0.0, {}, {})
                except meshio.WriteError:
                    pass
            cells = [(c.type, c.data) for c in m.cells] if s["form"] == "tuples" else m.cells
            w.write_points_cells(m.points, cells)
            yield
            for j, st in enumerate(s["steps"]):
                if dist and dist["kind"] == "caller" and dist["step"] == j and k == 0:
                    raise Caller("the caller's own code failed")
                pd, cd = step_data(s, st, m)
                if s.get("inplace"):  # the caller keeps its arrays and updates them from step to step
                    pd = {n: keep(bufs, ("p", n), a) for n, a in pd.items()}
                    cd = {n: [keep(bufs, ("c", n, b), a) for b, a in enumerate(x)] for n, x in cd.items()}
                if st.get("refused"):
                    bad = dict(pd, bad=np.array(["x"] * len(m.points)) if st["refused"] == "type" else np.zeros(len(m.points), dtype=complex))
                    try:
                        w.write_data(st["t"], bad, cd)
                        log[k].append(None)
                    except Caller:
                        raise
                    except (KeyboardInterrupt, MemoryError, OSError):
                        raise
                    except Exception:
                        pass
                w.write_data(st["t"], pd, cd)
                log[k].append(j)
                yield
        log[k].append("closed")

    r = random.Random(sc["order"])
    gens = [writer(k, s) for k, s in enumerate(S)]
    live = list(range(len(gens)))
    try:
        while live:
            k = r.choice(live)
            try:
                next(gens[k])
            except StopIteration:
                live.remove(k)
    finally:
        for g in reversed(gens):
            g.close()


def ph_write(root, sc, plan, at=None):
    core.install(root, plan)
    for s in sc["series"]:
        ops.stage(root, {"path": s["path"], "cwd": sc["cwd"]})
    log = [[] for _ in sc["series"]]
    if at is not None:
        with interrupt.Lines(at=at, exc=sc["dist"]["exc"]) as ln:
            o, v = core.call(lambda: session(root, sc, log))
        fired = {sc["dist"]["exc"]: 1} if ln.fired else {}
        n = ln.n
    else:
        if plan.get("count"):
            with interrupt.Lines() as ln:
                o, v = core.call(lambda: session(root, sc, log))
            n = ln.n
        else:
            o, v = core.call(lambda: session(root, sc, log))
            n = 0
        fired = core.stats()["fired"]
    return {"out": o, "info": v if o == "raise" else None, "log": log, "fired": fired, "stats": core.stats(), "lines": n}


def expected(s, m, j):
    """The mesh that step j of series s shows."""
    import meshio

    pd, cd = step_data(s, s["steps"][j], m)
    return meshio.Mesh(m.points, m.cells, point_data=pd, cell_data=cd)


def ph_read(root, sc, k, plan, must, partial):
    """Read series k in a drawn order; must: the steps that have to be there (None: any complete prefix of them)."""
    import meshio

    s = sc["series"][k]
    cfg = CFGS[f"xdmf-{s['fmt']}"]
    core.install(root, plan)
    ops.stage(root, {"path": s["path"], "cwd": sc["cwd"]})
    m = base(s)
    r = random.Random(sc["order"] + 1 + k)
    got = []

    def check(points, cells, t, pd, cd, j):
        e = expected(s, m, j)
        g = meshio.Mesh(points, cells, point_data=pd, cell_data=cd)
        d = formats.compare(cfg, e, g)
        if d is None and not (t == float(s["steps"][j]["t"])):
            d = f"time {t!r}, written {s['steps'][j]['t']!r}"
        return d and f"step {j}: {d}"

    def go():
        readers = []
        try:
            for _ in range(r.choice([1, 1, 2])):
                readers.append(meshio.xdmf.TimeSeriesReader(addr(root, s)))
            pcs = []
            for rd in readers:
                if r.random() < 0.2 and rd.num_steps:
                    try:
                        rd.read_data(0)
                        got.append("data before the mesh")
                        return
                    except meshio.ReadError:
                        pass
                pcs.append(rd.read_points_cells())
            n = readers[0].num_steps
            got.append(("n", n))
            if n > len(must) or (not partial and n != len(must)):
                return
            order = [r.randrange(n) for _ in range(2 * n)] + list(range(n)) if n else []
            r.shuffle(order)
            order = order[: max(6, n)]
            for k_ in order:
                x = r.randrange(len(readers))
                t, pd, cd = readers[x].read_data(k_)
                core.lib().sim_arm(0)
                d = check(pcs[x][0], pcs[x][1], t, pd, cd, must[k_])
                if r.random() < 0.3:  # what was returned belongs to the caller
                    for a in list(pd.values()) + [z for v in cd.values() for z in v]:
                        if a.flags.writeable and a.size:
                            a[...] = 0
                core.lib().sim_arm(1)
                if d:
                    got.append(d)
                    return
            if r.random() < 0.4:
                if r.random() < 0.5:  # the points and cells belong to the caller as well
                    for a in [pcs[0][0]] + [c.data for c in pcs[0][1]]:
                        if a.flags.writeable and a.size:
                            a[...] = 0
                pcs[0] = readers[0].read_points_cells()
                core.lib().sim_arm(0)
                d = formats.compare(cfg, m, meshio.Mesh(*pcs[0]))
                core.lib().sim_arm(1)
                if d:
                    got.append(d)
                    return
            got.append("done")
        finally:
            for rd in readers:
                rd.__exit__()

    o, v = core.call(go)
    return {"out": o, "info": v if o == "raise" else None, "got": got, "stats": core.stats()}


def run(sc, disk):
    S = sc["series"]
    name = f"time-series-{S[0]['fmt']}"
    blk = sc.get("blk") or 0
    res = {"phases": 1, "fired": {}, "ops": 0, "nontrivial": False}
    dist = sc["dist"]
    plan = {"blk": blk}
    at = None
    if dist and dist["kind"] != "caller":
        d = core.phase(ph_write, disk.root, dict(sc, dist=None), {"blk": blk, "count": dist["kind"] == "interrupt"})
        res["phases"] += 1
        if not d.ok or d.value["out"] != "ok":
            dist = None
            sc = dict(sc, dist=None)
        elif dist["kind"] == "interrupt":
            at = 1 + int(dist["frac"] * d.value["lines"])
        elif dist["kind"] == "crash":
            n = d.value["stats"]["total"] if dist["op"] == "any" else d.value["stats"]["ops"].get("write", 0)
            f = {"op": dist["op"], "nth": 1 + int(dist["frac"] * n), "act": dist["act"] if dist["op"] == "write" or dist["act"] != "torn" else "crash"}
            if f["act"] == "torn":
                f["arg"] = int(dist["part"] * 1000)
            plan["faults"] = [f]
        else:
            plan = ops.place(dist, d.value["stats"], ops.tree_bytes(disk.root), blk)
        disk.clear()
    if sc.get("wshort") and not dist:
        plan["short"] = sc["wshort"]
    if sc.get("again"):
        core.phase(ph_write, disk.root, dict(sc, series=[dict(s, spec=dict(s["spec"], seed=s["spec"]["seed"] ^ 1), steps=[dict(t, seed=t["seed"] ^ 1) for t in s["steps"][::-1]]) for s in S]), {})
    w = core.phase(ph_write, disk.root, sc, plan, at)
    nst = [len(s["steps"]) for s in S]
    beh = [[s["fmt"] for s in S], nst, ops.shape(S[0]["spec"]), dist and (dist["kind"], dist.get("op"), dist.get("err")), bool(sc["rfault"])]
    res["nontrivial"] = nst[0] > 0
    if not w.ok and not w.crashed:
        return dict(res, outcome="died", digest=(w.code, w.sig), behaviour=ops.digest(beh), violation=None if dist and any(s["fmt"] == "HDF" for s in S) else ops.V("died", name, f"the writing process died (exit {w.code}, signal {w.sig})"))
    if w.ok:
        res["fired"] = dict(w.value["fired"])
        log = w.value["log"]
        res["ops"] += w.value["stats"]["total"]
        clean = w.value["out"] == "ok"
        beh += [w.value["out"], (w.value["info"] or {}).get("loc")]
        if not clean and not dist:
            return dict(res, outcome="write raised", digest=(w.value["info"],), behaviour=ops.digest(beh), violation=ops.V("refused", name, f"an undisturbed series is refused: {w.value['info']}"))
        if not clean and w.value["info"]["type"] == "Caller":
            res["fired"] = {"caller exception": 1}
        if any(None in x for x in log):
            return dict(res, outcome="bad data accepted", digest=("bad accepted",), behaviour=ops.digest(beh))
    else:
        log, clean = None, False
        a = plan["faults"][0]["act"]
        res["fired"] = {a: 1}
    dg = [clean, log]
    for k, s in enumerate(S):
        all_ = list(range(len(s["steps"])))
        closed = log is not None and log[k][-1:] == ["closed"] and (clean or not res["fired"] or dist["kind"] in ("caller",))
        rplan = {"short": sc["rshort"]} if sc.get("rshort") else {}
        if sc["rfault"]:
            d = core.phase(ph_read, disk.root, sc, k, {}, all_, not clean)
            res["phases"] += 1
            if d.ok and d.value["out"] == "ok":
                rplan = ops.place(sc["rfault"], d.value["stats"], 0, blk)
        r = core.phase(ph_read, disk.root, sc, k, rplan, all_, not clean and not closed)
        res["phases"] += 1
        if not r.ok:
            if r.hung or not (sc["rfault"] or not clean):
                res["violation"] = ops.V("died", name, f"reading dies or hangs (exit {r.code}, signal {r.sig})")
            dg.append((r.code, r.sig))
            break
        v = r.value
        rf = v["stats"]["fired"]
        for x, n in rf.items():
            res["fired"][x] = res["fired"].get(x, 0) + n
        hard = any(":" in x and not x.endswith("EINTR") for x in rf)
        res["ops"] += v["stats"]["total"]
        got = v["got"]
        dg.append((v["out"], (v["info"] or {}).get("type"), got))
        beh += [v["out"], (v["info"] or {}).get("loc"), got[:1]]
        msg = None
        n = got[0][1] if got and isinstance(got[0], tuple) else None
        if v["out"] == "raise":
            if (clean or closed) and not hard:
                msg = f"a series written without an error is not read back: {v['info']}"
        elif n is None:
            msg = f"{got}"
        elif n > len(all_):
            msg = f"{n} steps read, {len(all_)} written"
        elif (clean or closed) and n != len(all_):
            msg = f"{n} steps read, {len(all_)} written"
        elif got[-1] != "done":
            msg = f"{got[-1]}"
        if msg:
            how = "" if clean else f" after {dist}"
            res["violation"] = ops.V("series", name, f"{s['fmt']} series {k} of {len(all_)} steps{how}: {msg}")
            break
    res["outcome"] = "clean" if clean else "cut short"
    res["digest"] = repr(dg)
    res["behaviour"] = ops.digest(beh)
    return res


def shrink(sc):
    if len(sc["series"]) > 1:
        for s in sc["series"]:
            yield dict(sc, series=[s])
    for key in ("dist", "rfault", "wshort", "rshort", "again"):
        if sc.get(key):
            yield dict(sc, **{key: None})
    if sc["blk"]:
        yield dict(sc, blk=0)
    for k, s in enumerate(sc["series"]):
        def sub(**kw):
            return dict(sc, series=sc["series"][:k] + [dict(s, **kw)] + sc["series"][k + 1:])
        st = s["steps"]
        if len(st) > 1:
            yield sub(steps=st[: len(st) // 2])
        for j in range(len(st)):
            yield sub(steps=st[:j] + st[j + 1:])
        for j, x in enumerate(st):
            for key in ("refused", "extra"):
                if x.get(key):
                    yield sub(steps=st[:j] + [{a: b for a, b in x.items() if a != key}] + st[j + 1:])
            if x["pd"] or x["cd"]:
                yield sub(steps=st[:j] + [dict(x, pd=x["pd"][1:], cd=[])] + st[j + 1:])
                yield sub(steps=st[:j] + [dict(x, pd=[], cd=x["cd"][1:])] + st[j + 1:])
        for sp in ops.shrink_spec({a: b for a, b in s["spec"].items() if a not in ("pd", "cd")}, CFGS[f"xdmf-{s['fmt']}"]):
            yield sub(spec=sp)
        if s["path"] != "ts.xdmf" or s["how"] != "abs":
            yield sub(path="ts.xdmf" if k == 0 else "zz.xdmf", how="abs")
        for key in ("early", "inplace"):
            if s.get(key):
                yield sub(**{key: False})
