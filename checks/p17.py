"""P17: a mesh that was read is independent of its file and of other meshes."""
import gc
import io
import os
import random

import numpy as np

from checks.p10 import plain
from sim import core, meshgen, ops, streams
from sim.formats import CFGS as OWN, READ as CFGS

NAMES = sorted(n for n in CFGS if CFGS[n].reader)
# netgen files list every region up to the largest region number in the cell data
WRITES = sorted(n for n in OWN if OWN[n].fmt != "netgen")
RUNS = {"quick": 6000, "thorough": 350000}
LEVEL = "exploration"
RULE = ("a run = (format configuration, mesh, 3 to 10 events in one process: the file is read again, overwritten in place by noise of the same length or by another mesh with the same time stamp, truncated, deleted; a mesh read before is changed in "
        "place, copied, written in any format, dropped; a stream that was read is overwritten); after every event every live mesh is compared with its own reference copy, files with their bytes, and every array must accept changes in place; "
        "distinct by (configuration, events); non-trivial = at least one event after a successful read")
ASSUMPTIONS = ["meshes written in the run carry no two-component data and no sets where written as VTK or VTU (recorded finding of P03)"]
EVENTS = ["read", "read", "noise", "other", "truncate", "delete", "edit", "edit", "copy", "write", "drop", "restore"]


def gen(rng, i, tier):
    name = ops.pick_cfg(rng, i, NAMES)
    cfg = CFGS[name]
    spec = meshgen.gen_spec(rng, cfg, size=rng.choice(["tiny", "small", "small", "medium"]))
    ev = [{"do": "read", "seed": rng.randrange(2**32)}] + [{"do": rng.choice(EVENTS), "seed": rng.randrange(2**32)} for _ in range(rng.randint(2, 9))]
    for e in ev:
        if e["do"] == "write":
            e["cfg"] = rng.choice(WRITES)
        if e["do"] == "read":
            e["via"] = rng.choice(["path", "path", "mem", "file"]) if name in streams.READ or name in streams.HDF else "path"
    return {"cfg": name, "spec": spec, "target": ops.draw_target(rng, cfg, 0.7), "events": ev, "mmap": None}


def arrays(m):
    return [a for a in meshgen.all_arrays(m) if isinstance(a, np.ndarray)]


def change(m, r):
    """Change a mesh in place, as its owner may; every array must accept it."""
    for a in arrays(m):
        if a.size and a.dtype != object and r.random() < 0.8:
            if not a.flags.writeable:
                return f"an array of shape {a.shape} is read-only"
            flat = a.reshape(-1) if a.flags.c_contiguous else a.ravel()
            k = r.randrange(a.size)
            idx = np.unravel_index(k, a.shape)
            a[idx] = 0 if flat[k] != 0 else 1
    u = r.random()
    if u < 0.3:
        m.point_data["added"] = np.full(len(m.points), 3.0)
    elif u < 0.5 and m.cells:
        m.cells.pop()
        for k in m.cell_data:
            if m.cell_data[k]:
                m.cell_data[k].pop()
    elif u < 0.6:
        m.points = m.points + 1
    return None


def ph(root, sc):
    import meshio

    core.install(root, {"clock": {"step": 0}})
    ops.stage(root, sc["target"])
    t = sc["target"]
    full = os.path.join(root, t["path"])
    dirs = os.path.dirname(full)
    spec = plain(sc["spec"]) if any(e["do"] == "write" for e in sc["events"]) else sc["spec"]
    o, v = core.call(lambda: ops.invoke_write(root, sc, meshgen.build(spec)))
    if o == "raise":
        return [], ("not written", None), 0
    keep = {}
    for f in os.listdir(dirs):
        p = os.path.join(dirs, f)
        if os.path.isfile(p):
            with open(p, "rb") as fh:
                keep[p] = (fh.read(), os.stat(p).st_mtime_ns)
    state = {p: b for p, (b, _) in keep.items()}  # what every file should hold
    live = []  # [mesh, reference snapshot, name]
    trace = []
    nread = 0
    good = None

    def put(p, b):
        """In place: same inode, no truncation below the new length, old time stamp."""
        fd = os.open(p, os.O_RDWR | os.O_CREAT)
        try:
            os.pwrite(fd, b, 0)
            os.ftruncate(fd, len(b))
        finally:
            os.close(fd)
        if p in keep:
            os.utime(p, ns=(keep[p][1], keep[p][1]))
        state[p] = b

    def verify(what):
        for m, ref, nm in live:
            d = meshgen.diff_snap(ref, meshgen.snap_mesh(m))
            if d:
                return f"after {what}: {nm} changed: {d}"
        for p, b in state.items():
            if b is None:
                continue
            with open(p, "rb") as fh:
                if fh.read() != b:
                    return f"after {what}: {os.path.basename(p)} changed"
        return None

    for k, e in enumerate(sc["events"]):
        r = random.Random(e["seed"])
        do = e["do"]
        msg = None
        if do == "read":
            st = None
            if e.get("via") in ("mem", "file") and state.get(full) is not None:
                kind = {**streams.READ, **streams.HDF}[sc["cfg"]]
                if e["via"] == "mem":
                    try:
                        st = io.BytesIO(state[full]) if kind == "b" else io.StringIO(state[full].decode())
                    except UnicodeDecodeError:
                        st = None
                else:
                    st = open(full, "rb" if kind == "b" else "r", encoding=None if kind == "b" else "utf8", errors=None if kind == "b" else "replace")
            o, v = core.call(lambda: ops.invoke_read(root, dict(sc, target=dict(t, auto=t["auto"] and st is None)), fname=st))
            if st is not None:
                if e["via"] == "mem" and not st.closed:
                    try:
                        if isinstance(st, io.BytesIO):
                            st.getbuffer()[:] = b"\xff" * len(st.getbuffer())
                        st.seek(0)
                        st.truncate(0)
                    except BufferError:
                        msg = "the stream's memory is still in use by the mesh"
                st.close()
            clean = all(state.get(p) == keep[p][0] for p in keep)
            trace.append((do, o, clean))
            if o == "ok":
                nread += 1
                snap = meshgen.snap_mesh(v)
                if clean:
                    if good is None:
                        good = snap
                    elif msg is None:
                        d = meshgen.diff_snap(good, snap)
                        msg = d and f"the same file read again is a different mesh: {d}"
                for m, _, nm in live:
                    for a in arrays(m):
                        for b in arrays(v):
                            if a.size and b.size and np.may_share_memory(a, b) and np.shares_memory(a, b) and msg is None:
                                msg = f"the mesh read at event {k} shares memory with {nm}"
                if nread <= 12:
                    live.append([v, snap, f"the mesh read at event {k}"])
            elif clean and good is not None:
                msg = f"the file cannot be read again: {v}"
            v = None
        elif do in ("noise", "other", "truncate", "delete", "restore"):
            trace.append((do,))
            if do == "other":
                o, v = core.call(lambda: ops.invoke_write(root, sc, meshgen.build(dict(spec, seed=e["seed"]))))
                for f in os.listdir(dirs):
                    p = os.path.join(dirs, f)
                    if os.path.isfile(p):
                        with open(p, "rb") as fh:
                            state[p] = fh.read()
                        if p in keep:
                            os.utime(p, ns=(keep[p][1], keep[p][1]))
            else:
                for p in sorted(keep):
                    if do == "noise":
                        put(p, r.randbytes(len(keep[p][0])))
                    elif do == "truncate":
                        put(p, keep[p][0][: r.randrange(len(keep[p][0]) + 1)])
                    elif do == "delete":
                        if os.path.exists(p):
                            os.unlink(p)
                        state[p] = None
                    else:
                        put(p, keep[p][0])
        elif not live:
            trace.append("idle")
        elif do == "edit":
            x = r.choice(live)
            trace.append((do, len(live)))
            msg = change(x[0], r)
            msg = msg and f"{x[2]}: {msg}"
            x[1] = meshgen.snap_mesh(x[0])
        elif do == "copy":
            x = r.choice(live)
            c = x[0].copy()
            trace.append((do,))
            d = meshgen.diff_snap(x[1], meshgen.snap_mesh(c))
            if d:
                msg = f"a copy of {x[2]} differs from it: {d}"
            live.append([c, meshgen.snap_mesh(c), f"the copy made at event {k}"])
            if r.random() < 0.5 and msg is None:
                y = r.choice([x, live[-1]])
                msg = change(y[0], r)
                y[1] = meshgen.snap_mesh(y[0])
        elif do == "write":
            x = r.choice(live)
            cfg = CFGS[e["cfg"]]
            trace.append((do, e["cfg"]))
            if not (x[0].point_sets or x[0].cell_sets) or cfg.fmt not in ("vtk", "vtk42", "vtk51", "vtu"):
                os.makedirs(os.path.join(root, f"w{k}"))
                core.call(lambda: meshio.write(os.path.join(root, f"w{k}", "o" + cfg.ext), x[0], file_format=cfg.fmt, **cfg.kw))
                x[1] = meshgen.snap_mesh(x[0])  # whether a write changes its mesh is P03
        elif do == "drop":
            live.pop(r.randrange(len(live)))
            gc.collect()
            trace.append((do,))
        msg = msg or verify(f"event {k} ({do})")
        if msg:
            return trace, ("violation", msg), nread
    return trace, ("done", None), nread


def run(sc, disk):
    name = sc["cfg"]
    r = core.phase(ph, disk.root, sc)
    res = {"phases": 1, "fired": {}, "ops": 0, "nontrivial": False}
    if not r.ok:
        res.update(outcome="died", digest=(r.code, r.sig))
        # noise or a cut file may kill the C libraries; a bus error from a mapped file would be meshio's doing
        if r.sig == 7 or not any(e["do"] in ("noise", "truncate") for e in sc["events"]) or not ops.is_hdf(name):
            res["violation"] = ops.V("died", name, f"the process dies or hangs (exit {r.code}, signal {r.sig})")
        return res
    trace, (kind, msg), nread = r.value
    for e in sc["events"]:
        if e["do"] in ("noise", "truncate", "delete", "other"):
            res["fired"]["file " + e["do"]] = res["fired"].get("file " + e["do"], 0) + 1
    res["nontrivial"] = nread > 0
    res["outcome"] = kind
    res["digest"] = (repr(trace), msg)
    res["behaviour"] = ops.digest(name, trace, ops.shape(sc["spec"]))
    if msg:
        res["violation"] = ops.V("independence", name, msg)
    return res


def shrink(sc):
    E = sc["events"]
    for j in range(1, len(E)):
        yield dict(sc, events=E[:j] + E[j + 1:])
    for j, e in enumerate(E):
        if e.get("via", "path") != "path":
            yield dict(sc, events=E[:j] + [dict(e, via="path")] + E[j + 1:])
    yield from ops.shrink_common(sc)
