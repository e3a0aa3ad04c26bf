"""P04: no call leaves files open, and the caller's streams stay the caller's."""
import gc
import os
import random
import re
import warnings

from sim import core, interrupt, meshgen, ops, streams
from sim.formats import CFGS as OWN, READ as CFGS

NAMES = sorted(CFGS)
RUNS = {"quick": 9000, "thorough": 400000}
LEVEL = "exploration"
RULE = ("a run = (format configuration, mesh, read or write, path or stream, good / truncated / corrupted / foreign content or an unsuitable mesh, disturbance: none, storage or stream fault, "
        "full disk, interrupt or failed allocation at any meshio statement); the seam's table of open files is inspected when the call has returned or raised, with the exception and its frames "
        "still alive, and the caller's stream is used afterwards; distinct by (configuration, direction, content, disturbance, outcome); files that only the interpreter's memory management closed count as left open; non-trivial = the call opened a file or was given a stream")
ASSUMPTIONS = ["the cyclic garbage collector does not run during a call: a file that only a cycle keeps open counts as left open",
               "after an interrupt the handles are inspected when the exception and the frames it kept alive have been dropped: Python itself cannot close a file while an interrupt hits the 'with' statement's own exit",
               "files held by the HDF5 or netCDF library after a failing close() are the library's (h5py and netCDF4 report the error and keep the descriptor)"]


def gen(rng, i, tier):
    name = ops.pick_cfg(rng, i, NAMES)
    cfg = CFGS[name]
    sc = {"cfg": name, "op": "read" if cfg.foreign else rng.choice(["read", "read", "write"]), "via": "path", "target": ops.draw_target(rng, cfg, 0.9)}
    tab = {**streams.HDF, **(streams.READ if sc["op"] == "read" else streams.WRITE)}
    if name in tab and rng.random() < 0.35:
        sc["via"] = "stream"
        sc["stream"] = {"plain": rng.random() < 0.3, "piece": rng.choice([0, 0, 1, 13, 200]), "seed": rng.randrange(2**32), "bufsize": rng.choice([8, 64, 4096]), "frac": None}
    bad = rng.random() < 0.55
    sc["spec"] = meshgen.gen_any(rng) if bad and sc["op"] == "write" else meshgen.gen_spec(rng, cfg, size=rng.choice(["tiny", "tiny", "small"]))
    if sc["op"] == "read" and bad:
        sc["damage"] = draw_damage(rng, ["other"])
        if sc["damage"]["kind"] == "other":
            sc["damage"]["cfg"] = rng.choice(sorted(OWN))
    sc["blk"] = 0 if cfg.lib == "gz" else ops.draw_blk(rng)  # gzip.open() itself leaves the file open when its header does not fit the buffer and cannot be written
    u = rng.random()
    if u < 0.35:
        sc["dist"] = dict(ops.draw_rfault(rng) if sc["op"] == "read" else ops.draw_wfault(rng)) if sc["via"] == "path" else {"kind": "stream", "frac": round(rng.random(), 4)}
    elif u < 0.6:
        sc["dist"] = {"kind": "interrupt", "frac": round(rng.random(), 5), "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])}
    return sc


def draw_damage(rng, more=()):
    return {"kind": rng.choice(["trunc", "trunc", "flip", "flip", "swap", "drop", "number", "number", "garbage", "empty", *more]), "frac": round(rng.random(), 5), "seed": rng.randrange(2**32), "file": rng.randrange(3)}


def damage(root, sc):
    """Damage what is on the disk (deterministically)."""
    d = sc["damage"]
    t = core.tree(root)
    files = [k for k, v in t.items() if v[0] == "file"]
    if not files:
        return
    main = sc["target"]["path"]
    files.sort(key=lambda f: (f != main, f))
    f = files[d["file"] % len(files)]
    b = bytearray(t[f][1])
    r = random.Random(d["seed"])
    if d["kind"] == "trunc":
        b = b[:int(d["frac"] * len(b))]
    elif d["kind"] == "flip":
        for _ in range(r.choice([1, 1, 3, 12])):
            if b:
                b[r.randrange(len(b))] = r.choice([r.randrange(256), 0x20, 0x0A, 0x2D, 0x39, 0])
    elif d["kind"] == "swap":
        ln = bytes(b).split(b"\n")
        if len(ln) > 1:
            x, y = r.randrange(len(ln)), r.randrange(len(ln))
            ln[x], ln[y] = ln[y], ln[x]
        b = b"\n".join(ln)
    elif d["kind"] == "drop":  # a line is missing
        ln = bytes(b).split(b"\n")
        del ln[r.randrange(len(ln))]
        b = b"\n".join(ln)
    elif d["kind"] == "number":  # a count or an index is wrong
        at = list(re.finditer(rb"(?<![\w.])\d+(?![\w.])", bytes(b)))
        if at:
            m = at[r.randrange(min(len(at), r.choice([5, 30, len(at)])))]
            n = max(0, int(m.group()) + r.choice([-2, -1, 1, 2, 1000])) if r.random() < 0.8 else r.choice([0, -1, 10**6])
            b = bytes(b)[:m.start()] + str(n).encode() + bytes(b)[m.end():]
    elif d["kind"] == "garbage":
        b = r.randbytes(r.choice([1, 20, 300, 3000]))
    elif d["kind"] == "empty":
        b = b""
    with open(os.path.join(root, f), "wb") as fh:
        fh.write(bytes(b))


def _call(root, sc, plan, at=None, exc=None, fail_at=None):
    import meshio

    gc.disable()
    core.install(root, plan)
    ops.stage(root, sc["target"])
    cfg = CFGS[sc["cfg"]]
    raw = st = None
    alive = {}
    if sc["op"] == "write":
        try:
            mesh = meshgen.build(sc["spec"])
        except Exception:
            return {"out": "unbuildable"}
    if sc["via"] == "stream":
        s = sc["stream"]
        if sc["op"] == "read":
            kind = {**streams.HDF, **streams.READ}[sc["cfg"]]
            with open(os.path.join(root, sc["target"]["path"]), "rb") as fh:
                data = fh.read()
            try:
                raw, st = streams.make_reader(kind, data, s["piece"], s["seed"], fail_at, s["bufsize"], s["plain"])
            except UnicodeDecodeError:
                return {"out": "unbuildable"}
            fn = lambda: meshio.read(st, cfg.read_fmt or cfg.fmt)
        else:
            kind = {**streams.HDF, **streams.WRITE}[sc["cfg"]]
            raw, st = streams.make_writer(kind, s["piece"], s["seed"], fail_at, s["bufsize"], s["plain"])
            fn = lambda: meshio.write(st, mesh, cfg.fmt, **ops.writer_kwargs(sc, cfg))
    elif sc["op"] == "read":
        fn = lambda: ops.invoke_read(root, sc)
    else:
        fn = lambda: ops.invoke_write(root, sc, mesh)
    ln = interrupt.Lines(at, exc or "KeyboardInterrupt")
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("ignore")
        warnings.simplefilter("always", ResourceWarning)
        with ln:
            o, v = core.call(fn, core.open_handles if at is None else None)
    lost = sorted({re.sub(r"^.*name=|>.*$", "", str(w.message)) for w in ws if issubclass(w.category, ResourceWarning) and root in str(w.message)})
    if at is not None:
        gc.collect()
    if o == "ok":
        h = core.open_handles()  # the result is still alive
    else:
        h = v.get("inspect") or core.open_handles()
    bad = None
    if st is not None:
        if st.closed:
            bad = "closed"
        else:
            if raw is not None:
                raw.fail_at = None
            try:
                st.seek(0, 2)
                if sc["op"] == "write":
                    st.write("x" if kind == "t" else b"x")
                    st.flush()
                    if not streams.content(raw, st).endswith(b"x"):
                        bad = "unusable: what the caller wrote afterwards did not arrive"
                else:
                    st.seek(0)
                    st.read()
            except UnicodeDecodeError:
                pass  # the content is not text; that is the caller's
            except Exception as e:
                if fail_at is None and at is None:  # a stream that failed may keep failing
                    bad = f"unusable ({type(e).__name__}: {e})"
    return {"out": o, "info": {k: x for k, x in v.items() if k != "inspect"} if o == "raise" else None, "handles": h, "lines": ln.n, "at": ln.fired, "stream": bad,
            "lost": [x.replace(root, "") for x in lost] if at is None else [], "sn": raw.n if raw is not None else 0, "stats": core.stats(), "failed": raw.failed if raw is not None else 0}


def _control(root, path):
    """What the C library itself leaves open for this file."""
    core.install(root)
    gc.disable()
    p = os.path.join(root, path)

    def nc():
        import netCDF4

        netCDF4.Dataset(p).close()

    def h5():
        import h5py

        h5py.File(p, "r").close()

    for f in (nc,) if path.rsplit(".")[-1] in ("e", "exo", "ex2") else (h5,):
        core.call(f)
    return core.open_handles()[0]


def judge(sc, v, what, root=None):
    name = sc["cfg"]
    if v["stream"]:
        return ops.V("stream", name, f"{what}: the caller's stream is {v['stream']} after the {sc['op']} {end(v)}")
    if v["lost"]:
        return ops.V("dropped", name, f"{what}: {sc['op']} {end(v)}; it never closed {', '.join(v['lost'])}, the interpreter's memory management did")
    n, names = v["handles"]
    if n:
        fired = v["stats"]["fired"]
        if ops.is_hdf(name) and any(k.startswith(("close", "write", "trunc", "enospc")) for k in fired):
            return None  # the C library kept the descriptor after a failing flush/close
        if ops.is_hdf(name) and sc.get("damage") and v["out"] == "raise" and root and sc["via"] == "path":
            c = core.phase(_control, root, sc["target"]["path"])
            if not c.ok or c.value:
                return None  # so does the C library alone, given this file
        return ops.V("open", name, f"{what}: {sc['op']} {end(v)} and left open: {names.strip()}")


def end(v):
    return "returned" if v["out"] == "ok" else f"raised {v['info']['type']} ({v['info']['loc']})"


def run(sc, disk):
    name = sc["cfg"]
    res = {"phases": 0, "fired": {}, "ops": 0, "nontrivial": False, "digest": None}
    if sc["op"] == "read":
        w = core.phase(ops.ph_write, disk.root, sc)
        res["phases"] += 1
        if not w.ok or w.value["out"] != "ok":
            return dict(res, outcome="not written", digest=(w.code, w.sig))
        d = sc.get("damage")
        if d:
            if d["kind"] == "other":
                o = dict(sc, cfg=d["cfg"], spec=meshgen.gen_spec(random.Random(d["seed"]), CFGS[d["cfg"]], "tiny"), target=dict(sc["target"], auto=False))
                core.phase(ops.ph_write, disk.root, o)
                res["phases"] += 1
            else:
                damage(disk.root, sc)
    before = core.tree(disk.root)
    r = core.phase(_call, disk.root, sc, {"limits": (3000, 300000), "blk": sc.get("blk") or 0})
    res["phases"] += 1
    if not r.ok or r.value["out"] == "unbuildable":
        return dict(res, outcome="unbuildable" if r.ok else "died", digest=(r.code, r.sig))
    v = r.value
    res["ops"] += v["stats"]["total"]
    res["digest"] = (v["stats"]["digest"], v["out"], v["handles"], v["stream"])
    what = "undisturbed" + (f", {sc['damage']['kind']} content" if sc.get("damage") else "")
    res["outcome"] = f"{sc['op']} {v['out']}"
    res["behaviour"] = ops.digest(name, sc["op"], sc["via"], (sc.get("damage") or {}).get("kind"), v["out"], (v["info"] or {}).get("loc"), (v["info"] or {}).get("type"))
    res["nontrivial"] = bool(v["stats"]["ops"].get("open_r") or v["stats"]["ops"].get("open_w") or sc["via"] == "stream")
    bad = judge(sc, v, what, disk.root)
    if bad:
        return dict(res, violation=bad)
    dd = sc.get("dist")
    if dd:
        if sc["op"] == "write":
            size = ops.tree_bytes(disk.root)
            disk.clear()
        if dd["kind"] == "interrupt":
            args = (None, 1 + int(dd["frac"] * v["lines"]), dd["exc"])
        elif dd["kind"] == "stream":
            args = (None, None, None, 1 + int(dd["frac"] * v["sn"]))
        else:
            args = (ops.place(dd, v["stats"], size if sc["op"] == "write" else 0, sc.get("blk") or 0),)
        u = core.phase(_call, disk.root, sc, *args)
        res["phases"] += 1
        if not u.ok:
            return dict(res, outcome=res["outcome"] + ", disturbed: died", digest=(res["digest"], u.code, u.sig))
        u = u.value
        res["fired"] = dict(u["stats"]["fired"])
        if u["at"]:
            res["fired"]["interrupt:" + dd["exc"]] = 1
        if u["failed"]:
            res["fired"]["stream:EIO"] = u["failed"]
        res["ops"] += u["stats"]["total"]
        res["digest"] = (res["digest"], u["stats"]["digest"], u["out"], u["handles"], u["stream"])
        res["outcome"] += ", disturbed: " + u["out"]
        res["behaviour"] = ops.digest(res["behaviour"], dd["kind"], dd.get("op"), u["at"] or "", u["out"], (u["info"] or {}).get("loc"))
        bad = judge(sc, u, f"{dd['kind']} {u['at'] or sorted(res['fired'])}", disk.root)
        if bad:
            res["violation"] = bad
    return res


def shrink(sc):
    if sc.get("dist"):
        yield {k: v for k, v in sc.items() if k != "dist"}
    if sc.get("damage"):
        yield {k: v for k, v in sc.items() if k != "damage"}
    if sc["via"] == "stream" and (sc["stream"]["piece"] or not sc["stream"]["plain"]):
        yield dict(sc, stream=dict(sc["stream"], piece=0))
        yield dict(sc, stream=dict(sc["stream"], plain=True))
    if not (sc.get("damage") or {}).get("kind") == "other":
        yield from ops.shrink_common(sc)
