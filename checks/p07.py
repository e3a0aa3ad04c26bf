"""P07: reading a torn or truncated file always terminates."""
import io
import os
import random

from sim import core, interrupt, meshgen, ops, streams
from sim.formats import READ as CFGS

NAMES = sorted(CFGS)
RUNS = {"quick": 12000, "thorough": 600000}
LEVEL = "exploration"
RULE = ("a run = (format configuration, mesh, cut point anywhere in the target or a companion file: any byte, a line or token boundary, inside the last lines, or a device that stops delivering "
        "data in mid-read; optionally delivered in small pieces or through a stream); the read must return or raise within a budget of interpreter steps proportional to the file and to the work of the "
        "undamaged read, without asking for data again and again at the end of the file; distinct by (configuration, cut region, outcome and where it raised); non-trivial = the cut file differs from the whole one")
ASSUMPTIONS = ["steps = statements executed in meshio (sys.settrace) plus simulated storage operations; 10 s of processor time per read of a file of at most a few 100 kB as a backstop for loops inside C code"]


def gen(rng, i, tier):
    name = ops.pick_cfg(rng, i, NAMES)
    cfg = CFGS[name]
    sc = {"cfg": name, "spec": meshgen.gen_spec(rng, cfg, size=rng.choice(["tiny", "tiny", "small"])), "target": ops.draw_target(rng, cfg, 0.95)}
    sc["cut"] = {"kind": rng.choice(["byte", "byte", "byte", "line", "line", "word", "tail", "head"]), "frac": round(rng.random(), 5), "file": rng.choice([0, 0, 0, 1, 2]), "nl": rng.random() < 0.2}
    if sc["cut"]["kind"] in ("byte", "line") and rng.random() < 0.15:
        sc["cut"]["live"] = True  # the device stops delivering in mid-read instead
    tab = {**streams.READ, **streams.READ_FILE}
    if name in tab and rng.random() < 0.2:
        sc["stream"] = tab[name]
    if rng.random() < 0.3:
        sc["short"] = {"seed": rng.randrange(2**32), "r": rng.choice([1, 7, 64]), "w": 0, "eintr": 0}
    return sc


def cut(root, sc):
    t = core.tree(root)
    c = sc["cut"]
    files = sorted((f for f, v in t.items() if v[0] == "file"), key=lambda f: (f != sc["target"]["path"], f))
    f = files[c["file"] % len(files)]
    b = t[f][1]
    k = c["kind"]
    if k == "byte":
        n = int(c["frac"] * len(b))
    elif k == "tail":
        n = max(0, len(b) - 1 - int(c["frac"] * 40))
    elif k == "head":
        n = min(len(b), int(c["frac"] * 200))
    elif k == "line":
        ends = [i + 1 for i, x in enumerate(b) if x == 10] or [0]
        n = ends[int(c["frac"] * len(ends))]
    else:
        ends = [i for i, x in enumerate(b) if x in b" \n<>,="] or [0]
        n = ends[int(c["frac"] * len(ends))]
    d = b[:n] + (b"\n" if c["nl"] else b"")
    if not c.get("live"):
        with open(os.path.join(root, f), "wb") as fh:
            fh.write(d)
    return f, len(b), n, d != b


def _read(root, sc, plan, budget):
    import meshio

    core.install(root, plan)
    ops.stage(root, sc["target"])
    cfg = CFGS[sc["cfg"]]
    if sc.get("stream"):
        p = os.path.join(root, sc["target"]["path"])

        def fn():
            with open(p, "rb") as fh:
                if sc["cfg"] in streams.READ:
                    data = fh.read()
                    st = io.BytesIO(data) if sc["stream"] == "b" else io.StringIO(data.decode("utf8", "replace"))
                    return meshio.read(st, cfg.read_fmt or cfg.fmt)
            with open(p, "r" if sc["stream"] == "t" else "rb") as st:
                return meshio.read(st, cfg.read_fmt or cfg.fmt)
    else:
        fn = lambda: ops.invoke_read(root, sc)
    ln = interrupt.Lines(budget=budget)
    with ln:
        o, v = core.call(fn)
    return {"out": o, "info": v if o == "raise" else None, "lines": ln.n, "stats": core.stats()}


def run(sc, disk):
    name = sc["cfg"]
    w = core.phase(ops.ph_write, disk.root, sc)
    res = {"phases": 1, "fired": {}, "ops": 0, "nontrivial": False}
    if not w.ok or w.value["out"] != "ok":
        return dict(res, outcome="not written", digest=(w.code, w.sig))
    g = core.phase(_read, disk.root, sc, None, None)
    res["phases"] += 1
    if not g.ok:
        return dict(res, outcome="good file not read", digest=(g.code, g.sig))
    size = ops.tree_bytes(disk.root)
    f, n0, n, changed = cut(disk.root, sc)
    plan = {}
    if sc.get("short"):
        plan["short"] = sc["short"]
    if sc["cut"].get("live"):
        k = g.value["stats"]["ops"].get("read", 0)
        plan["faults"] = [{"op": "read", "nth": 1 + int(sc["cut"]["frac"] * k), "act": "eof", "sticky": 1}]
        plan.pop("short", None)
    ops0 = g.value["stats"]["total"]
    plan["limits"] = (500 + 4 * g.value["stats"]["ops"].get("read", 0), 20000 + 40 * ops0 + 20 * size)
    budget = 20000 + 10 * g.value["lines"] + 30 * size
    core.CPU_LIMIT, keep = 10, core.CPU_LIMIT
    try:
        r = core.phase(_read, disk.root, sc, plan, budget)
    finally:
        core.CPU_LIMIT = keep
    res["phases"] += 1
    res["nontrivial"] = changed
    where = f"{os.path.splitext(f)[1] or f}, cut after {n} of {n0} bytes" if not sc["cut"].get("live") else f"reads from the {int(sc['cut']['frac'] * 100)}% point on deliver nothing"
    if r.hung:
        what = {99: "keeps asking for data at the end of the file, or loops", 98: "does not stop issuing storage operations"}.get(r.code, "does not end (processor time)")
        res.update(outcome="hang", digest=("hang", r.code), behaviour=ops.digest(name, "hang"), violation=ops.V("hang", name, f"the read {what}: {where}"))
        return res
    if not r.ok:
        return dict(res, outcome=f"died {r.sig}", digest=(r.code, r.sig))
    v = r.value
    res["ops"] = v["stats"]["total"]
    res["fired"] = dict(v["stats"]["fired"])
    if changed and not sc["cut"].get("live"):
        res["fired"]["truncated file"] = 1
    res["outcome"] = "returned" if v["out"] == "ok" else "raised"
    res["digest"] = (v["stats"]["digest"], v["out"], v["info"])
    res["behaviour"] = ops.digest(name, bool(sc.get("stream")), n * 12 // max(n0, 1), v["out"], (v["info"] or {}).get("loc"), (v["info"] or {}).get("type"))
    return res


def shrink(sc):
    for k in ("short", "stream"):
        if sc.get(k):
            yield {a: b for a, b in sc.items() if a != k}
    if sc["cut"]["nl"]:
        yield dict(sc, cut=dict(sc["cut"], nl=False))
    for fr in (0.0, 0.25, 0.5, 0.75):
        if sc["cut"]["frac"] not in (0.0, 0.25, 0.5, 0.75):
            yield dict(sc, cut=dict(sc["cut"], frac=fr))
    yield from ops.shrink_common(sc)
