"""P14: streams and paths are interchangeable."""
import io
import os

from sim import calls, core, meshgen, ops, streams
from sim.formats import CFGS

# the flavour is chosen by the file's name, which a stream does not have
BY_NAME = {n for n in CFGS if n.startswith("ugrid.")} | {"medit-bin", "netgen-gz", "permas-gz"}
NAMES = sorted(set(CFGS) - BY_NAME)
TAKES_W = {**streams.WRITE, **streams.HDF}
TAKES_R = {**streams.READ, **streams.HDF}
PRE = b"9 8 7 6 5 4\n"
RUNS = {"quick": 7000, "thorough": 400000}
LEVEL = "exploration"
RULE = ("a run = (format configuration, mesh, read or write, stream: in memory, a buffered stream over a raw one that takes or delivers seeded pieces and may fail from its k-th operation on, or a file the caller opened; text or binary, content already "
        "in the stream); the bytes in the stream are compared with the file written to a path under the same clock, the mesh read with the one read from the path; distinct by (configuration, direction, kind of stream, pieces, outcome); "
        "non-trivial = the format took the stream")
ASSUMPTIONS = ["formats that document or show no stream support may refuse one by raising, but never return successfully without having used it", "HDF5 files written through the library's stream driver are compared by the mesh they hold, not by their bytes"]


def gen(rng, i, tier):
    name = ops.pick_cfg(rng, i, NAMES)
    cfg = CFGS[name]
    op = "read" if cfg.reader and rng.random() < 0.5 else "write"
    tab = TAKES_R if op == "read" else TAKES_W
    kind = tab.get(name)
    if kind is None:
        kind = streams.READ_FILE.get(name) if op == "read" else None
    if kind is None or rng.random() < 0.06 and name not in streams.HDF:
        kind = rng.choice("bt")
    via = rng.choice(["raw", "raw", "raw", "mem", "file"])
    if op == "read" and name in streams.READ_FILE:
        via = "file"
    s = {"kind": kind, "via": via, "piece": rng.choice([0, 1, 7, 100, 4000]), "seed": rng.randrange(2**32), "bufsize": rng.choice([8, 64, 1000, 8192]), "fail": None, "prefix": 0}
    if op == "read" and via != "file" and name in streams.READ and kind == streams.READ[name] and rng.random() < 0.3:
        s["prefix"] = rng.choice([1, 3, 40, -1, -1])  # lines of something else, or another mesh, which the caller has read already
    if op == "write" and name in streams.WRITE and kind == streams.WRITE[name] and rng.random() < 0.3:
        s["prefix"] = rng.choice([1, 3, 40])  # lines the caller has written already
    if via == "raw" and rng.random() < 0.35:
        s["fail"] = rng.choice([round(rng.random(), 4), 0.0, 0.9999])
    return {"cfg": name, "op": op, "kind": op, "spec": meshgen.gen_spec(rng, cfg, size=rng.choice(["tiny", "small", "small", "medium"])), "target": {"path": "p/out" + cfg.ext, "cwd": ".", "how": "abs", "auto": False},
            "stream": s, "blk": ops.draw_blk(rng) if via == "file" else 0, "short": ops.draw_short(rng, 0.3) if via == "file" else None}


def ph_path(root, sc):
    """The same call with a path."""
    core.install(root, calls.STILL)
    ops.stage(root, sc["target"])
    p = os.path.join(root, sc["target"]["path"])
    o, v = core.call(lambda: ops.invoke_write(root, sc, meshgen.build(sc["spec"])))
    if o == "raise":
        return {"out": "raise", "info": v}
    if not os.path.exists(p):
        return {"out": "nofile"}
    with open(p, "rb") as f:
        data = f.read()
    snap = None
    if CFGS[sc["cfg"]].reader:
        o, v = core.call(lambda: ops.invoke_read(root, sc))
        snap = ("ok", meshgen.snap_mesh(v)) if o == "ok" else ("raise", v["type"])
    return {"out": "ok", "data": data, "snap": snap}


def ph_stream(root, sc, data, fail_at):
    s = sc["stream"]
    plan = dict(calls.STILL, blk=sc.get("blk") or 0)
    if sc.get("short"):
        plan["short"] = sc["short"]
    core.install(root, plan)
    ops.stage(root, sc["target"])
    d = os.path.join(root, "cwd")
    os.makedirs(d)
    os.chdir(d)
    raw, base = None, 0
    path = os.path.join(root, "s.bin")
    if sc["op"] == "read":
        if s["via"] == "file":
            with open(path, "wb") as f:
                f.write(data)
            core.lib().sim_arm(1)
            st = open(path, "rb") if s["kind"] == "b" else open(path, encoding="utf8")
            core.lib().sim_arm(0)
        else:
            try:
                pre = PRE * s["prefix"] if s["prefix"] >= 0 else data.rstrip(b"\n") + b"\n"
                raw, st = streams.make_reader(s["kind"], pre + data, s["piece"], s["seed"], None, s["bufsize"], s["via"] == "mem")
                for _ in range(pre.count(b"\n")):
                    st.readline()
                if raw is not None:
                    base = raw.n
                    raw.fail_at = fail_at and base + fail_at
            except UnicodeDecodeError:
                return {"out": "raise", "info": {"type": "UnicodeDecodeError", "loc": ""}, "failed": 0, "n": 0}
        o, v = core.call(lambda: ops.invoke_read(root, dict(sc, target=dict(sc["target"], auto=False)), fname=st))
        out = {"out": o, "info": v if o == "raise" else None, "snap": meshgen.snap_mesh(v) if o == "ok" else None}
    else:
        if s["via"] == "file":
            core.lib().sim_arm(1)
            st = open(path, "w+b") if s["kind"] == "b" else open(path, "w", encoding="utf8", newline="\n")
            core.lib().sim_arm(0)
        else:
            raw, st = streams.make_writer(s["kind"], s["piece"], s["seed"], None, s["bufsize"], s["via"] == "mem")
        if s["prefix"]:
            st.write(PRE.decode() * s["prefix"] if s["kind"] == "t" else PRE * s["prefix"])
        if raw is not None:
            base = raw.n
            raw.fail_at = fail_at and base + fail_at
        mesh = meshgen.build(sc["spec"])
        o, v = core.call(lambda: ops.invoke_write(root, dict(sc, target=dict(sc["target"], auto=False)), mesh, fname=st))
        out = {"out": o, "info": v if o == "raise" else None}
    out["failed"] = raw.failed if raw is not None else 0
    out["n"] = raw.n - base if raw is not None else 0
    out["pieces"] = raw.pieces if raw is not None else 0
    out["closed"] = st.closed
    if sc["op"] == "write" and o == "ok" and not st.closed:
        if s["via"] == "file":
            st.flush()
            with open(path, "rb") as f:
                out["data"] = f.read()
        elif not out["failed"]:
            if raw is not None:
                raw.fail_at = None
            out["data"] = streams.content(raw, st)
    out["stray"] = sorted(os.listdir(d))
    out["fired"] = core.stats()["fired"]
    return out


def ph_back(root, sc, data):
    core.install(root, {})
    p = os.path.join(root, "back" + CFGS[sc["cfg"]].ext)
    with open(p, "wb") as f:
        f.write(data)
    o, v = core.call(lambda: ops.invoke_read(root, dict(sc, target=dict(sc["target"], auto=False)), fname=p))
    return ("ok", meshgen.snap_mesh(v)) if o == "ok" else ("raise", v["type"])


def run(sc, disk):
    name, s = sc["cfg"], sc["stream"]
    P, S = os.path.join(disk.root, "a"), os.path.join(disk.root, "b")
    os.makedirs(P)
    res = {"phases": 2, "fired": {}, "ops": 0, "nontrivial": False}
    r = core.phase(ph_path, P, sc)
    if not r.ok or r.value["out"] != "ok":
        return dict(res, outcome="not written", digest=(r.code, r.sig))
    ref = r.value
    if sc["op"] == "read" and (ref["snap"] is None or ref["snap"][0] != "ok"):
        return dict(res, outcome="not readable", digest=("unreadable",))

    def go(fail_at):
        if os.path.isdir(S):
            os.rename(S, S + "0")
        os.makedirs(S)
        res["phases"] += 1
        return core.phase(ph_stream, S, sc, ref["data"], fail_at)

    q = go(None)
    tab = TAKES_R if sc["op"] == "read" else TAKES_W
    takes = tab.get(name) == s["kind"] or (sc["op"] == "read" and s["via"] == "file" and streams.READ_FILE.get(name) == s["kind"])
    desc = f"{sc['op']} with a {'binary' if s['kind'] == 'b' else 'text'} stream ({s['via']}, pieces of {s['piece']}{', not at its start' if s['prefix'] else ''})"
    beh = [name, sc["op"], s["kind"], s["via"], s["piece"], s["bufsize"], s["fail"] is not None]

    def judge(q, faulty):
        if not q.ok:
            return f"{desc}: the process dies or hangs (exit {q.code}, signal {q.sig})" if not (ops.is_hdf(name) and (faulty or not takes)) else None
        v = q.value
        for k, n in (("stream piece", v.get("pieces", 0)), ("stream failure", v["failed"])):
            if n:
                res["fired"][k] = res["fired"].get(k, 0) + n
        for k, n in v.get("fired", {}).items():
            res["fired"][k] = res["fired"].get(k, 0) + n
        if v.get("stray"):
            return f"{desc}: files {v['stray']} appear"
        if v["out"] == "raise":
            if takes and not v["failed"]:
                return f"{desc} is refused: {v['info']}"
            return None
        res["nontrivial"] = True
        if v["failed"] and not ops.is_hdf(name):
            return f"{desc}: the stream failed {v['failed']} times, but the call returned"
        if v["failed"]:
            return None
        if v["closed"]:
            return f"{desc}: the caller's stream was closed"
        if sc["op"] == "read":
            d = meshgen.diff_snap(ref["snap"][1], v["snap"])
            return d and f"{desc}: a different mesh than from the path: {d}"
        if v["data"] == PRE * s["prefix"] + ref["data"]:
            return None
        if name in streams.HDF:
            b = core.phase(ph_back, S, sc, v["data"])
            res["phases"] += 1
            if b.ok and ref["snap"] is not None:
                if b.value[0] != ref["snap"][0]:
                    return f"{desc}: what the stream holds reads as {b.value[0]}, from the path {ref['snap'][0]}"
                if b.value[0] == "ok":
                    d = meshgen.diff_snap(ref["snap"][1], b.value[1])
                    return d and f"{desc}: what the stream holds is a different mesh: {d}"
            return None
        return f"{desc}: {len(v['data'])} bytes in the stream, {len(ref['data'])} in the file, not the same"

    m = judge(q, False)
    if m is None and s["fail"] is not None and q.ok and q.value["n"]:
        q2 = go(1 + int(s["fail"] * q.value["n"]))
        m = judge(q2, True)
        beh.append(q2.ok and (q2.value["out"], (q2.value["info"] or {}).get("loc")))
    res["outcome"] = (q.value["out"] if q.ok else "died") + ("" if takes else " (untaken)")
    beh += [q.ok and q.value["out"], ops.shape(sc["spec"])]
    res["digest"] = (q.code, q.sig, res["outcome"], m)
    res["behaviour"] = ops.digest(*beh)
    if m:
        res["violation"] = ops.V("stream", name, m)
    return res


def shrink(sc):
    s = sc["stream"]
    for kw in ({"fail": None}, {"prefix": 0}, {"piece": 0}, {"via": "mem"}, {"bufsize": 8192}):
        if any(s[k] != v for k, v in kw.items()) and not (kw.get("via") and sc["op"] == "read" and sc["cfg"] in streams.READ_FILE):
            yield dict(sc, stream=dict(s, **kw))
    if sc.get("short"):
        yield dict(sc, short=None)
    for sp in ops.shrink_spec(sc["spec"], CFGS[sc["cfg"]]):
        yield dict(sc, spec=sp)
