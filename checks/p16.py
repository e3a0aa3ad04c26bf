"""P16: format look-up follows the registry; a refused format falls through to the next."""
import io
import os
import pathlib
import random

import numpy as np

from sim import core, ops

RUNS = {"quick": 8000, "thorough": 700000}
LEVEL = "exploration"
RULE = ("a run = a history of 4 to 25 registrations, deregistrations (of formats made up for the run and of meshio's own) and reads and writes by path or stream, with or without an explicit format, through every public entry point, where every "
        "made-up reader and writer accepts, rejects or fails as drawn for each call; the readers and writers called, their arguments and the outcome are compared step by step with a model of the registry; "
        "distinct by (sequence of steps and outcomes); non-trivial = at least one made-up or built-in reader or writer was reached")
ASSUMPTIONS = ["extensions are registered in lower case, as meshio's own are", "a name registered as writer only, or under the writers of another format, is a format name of its own when deregistering"]
_EXTS = [".aa", ".bb", ".cc", ".aa.gz", ".bb.gz", ".gz", ".v1.cc", ".b8.aa.gz", ".x.v1.cc.bb", ".msh", ".stl", ".vtk"]
NAMES = ["f0", "f1", "f2", "f3", "stl", "gmsh", "ansys", "vtk"]
_FILES = ["a.aa", "A.AA", "x.bb.gz", "x.y.aa.gz", "m.v1.cc", "m.V1.Cc", "noext", "q.zz", "d.aa/n.bb", ".aa", "real.msh", "REAL.MSH", "real.stl", "k.cc.bb", "real.vtk", "m.b8.aa.gz", "n.1.B8.Aa.gz", "o.x.v1.cc.bb", "o.y.x.v1.cc.bb"]
# how meshio's own readers take the three real files
REAL = {"real.msh": {"gmsh": "ok", "ansys": "reject"}, "REAL.MSH": {"gmsh": "ok", "ansys": "reject"}, "real.stl": {"stl": "ok"}, "real.vtk": {"vtk": "ok"}}


def gen(rng, i, tier):
    steps = []
    mine = NAMES[:4] if rng.random() < 0.4 else NAMES[:2]
    EXTS, FILES = _EXTS, _FILES
    if rng.random() < 0.6:  # a small world: collisions are common
        EXTS = rng.choice([[".aa", ".aa.gz", ".gz"], [".aa.gz", ".b8.aa.gz"], [".bb", ".x.v1.cc.bb"], [".bb", ".cc"], [".aa"], [".cc", ".v1.cc", ".stl"], [".msh", ".stl", ".vtk"]])
        FILES = [f for f in _FILES if any(f.lower().endswith(e) for e in EXTS)] + ["noext"]
        EXTS = EXTS * 3
    for _ in range(rng.randint(4, 25)):
        u = rng.random()
        if u < 0.3:
            n = rng.choice(mine) if rng.random() < 0.8 else rng.choice(NAMES)
            w = [n] if rng.random() < 0.7 else []
            if rng.random() < 0.25:
                w.append(n + rng.choice(["-v1", "-v2"]))
            steps.append({"do": "reg", "name": n, "exts": sorted(set(rng.sample(EXTS, rng.choice([0, 1, 1, 2, 3])))), "reader": rng.random() < 0.8, "writers": w, "tag": rng.randrange(10**6)})
        elif u < 0.42:
            steps.append({"do": "dereg", "name": rng.choice(mine * 3 + NAMES + ["never"])})
        else:
            kind = rng.choice(["read", "read", "write"])
            f = rng.choice(FILES)
            st = {"do": kind, "file": f, "fmt": rng.choice([None, None, None] + mine + ["f0-v1", "unknown", "stl", "vtk"]), "how": rng.choice(["str", "path", "str", "stream"]), "missing": rng.random() < 0.08,
                  "api": rng.choice(["fn", "fn", "mesh", "pc"]), "beh": {n: rng.choice(["ok", "ok", "reject", "reject", "fail", "fail2", "interrupt"]) for n in NAMES + ["f0-v1", "f0-v2", "f1-v1", "f1-v2", "f2-v1", "f2-v2", "f3-v1", "f3-v2"]},
                  "kw": rng.random() < 0.3}
            steps.append(st)
    return {"steps": steps}


# ------------------------------------------------------------------- model
class Model:
    def __init__(self, ext):
        self.ext = {k: list(v) for k, v in ext.items()}
        self.readers = {n: "builtin" for v in ext.values() for n in v}
        self.writers = dict(self.readers)

    def reg(self, st):
        for e in st["exts"]:
            self.ext.setdefault(e, []).append(st["name"])
        if st["reader"]:
            self.readers[st["name"]] = st["tag"]
        for w in st["writers"]:
            self.writers[w] = st["tag"]

    def dereg(self, st):
        n = st["name"]
        self.ext = {k: [x for x in v if x != n] for k, v in self.ext.items()}
        self.readers.pop(n, None)
        self.writers.pop(n, None)

    def candidates(self, path):
        parts = os.path.basename(path).split(".")
        if parts[0] == "":  # a leading dot does not start a suffix
            parts = parts[1:]
        out, e = [], ""
        for s in reversed(parts[1:]):
            e = "." + s.lower() + e
            out += self.ext.get(e, [])
        return out

    def call(self, st):
        """(calls to made-up functions in order, outcome)"""
        stream = st["how"] == "stream"
        made = []
        f = os.path.basename(st["file"])
        if st["do"] == "read":
            if stream:
                cand = [st["fmt"]] if st["fmt"] else None
                if cand is None or cand[0] not in self.readers:
                    return made, "fails"
            else:
                if st["missing"]:
                    return made, "fails"
                cand = [st["fmt"]] if st["fmt"] else self.candidates(st["file"])
            for n in cand:
                if n not in self.readers:
                    return made, "fails"
                tag = self.readers[n]
                if tag == "builtin":
                    b = "unknown" if stream else REAL.get(f, {}).get(n, "unknown")
                    if b == "unknown":
                        return made, "?"  # meshio's own reader on a file that is not its own
                    if b == "ok":
                        return made, ("real", f)
                    continue
                made.append((n, tag))
                b = st["beh"][n]
                if b == "ok":
                    return made, ("made", tag)
                if b == "reject" and not stream:
                    continue
                return made, ("raises", EXC[b].__name__ if b != "reject" else "ReadError")
            return made, "fails"
        cand = [st["fmt"]] if st["fmt"] else ([] if stream else self.candidates(st["file"]))
        if not cand or cand[0] not in self.writers:
            return made, "fails"
        n = cand[0]
        tag = self.writers[n]
        if tag == "builtin":
            return made, "builtin"
        made.append((n, tag))
        b = st["beh"][n]
        if b == "ok":
            return made, "ok"
        return made, ("raises", EXC[b].__name__ if b != "reject" else "WriteError")


class Oops(Exception):
    pass


EXC = {"fail": Oops, "fail2": ValueError, "interrupt": KeyboardInterrupt, "reject": None}


def mesh_for(tag):
    import meshio

    return meshio.Mesh(np.array([[float(tag), 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]), [("triangle", np.array([[0, 1, 2]]))])


def ph(root, steps):
    import meshio

    core.install(root)
    os.chdir(root)
    os.makedirs("d.aa")
    base = mesh_for(5)
    for f in _FILES:
        with open(f, "wb") as fh:
            fh.write(b"\0not a mesh\n")
    real = {}
    for f, fmt in (("real.msh", "gmsh22"), ("REAL.MSH", "gmsh22"), ("real.stl", "stl"), ("real.vtk", "vtk42")):
        meshio.write(f, base, file_format=fmt, binary=False)
        real[f] = meshio.read(f)
    model = Model(meshio.extension_to_filetypes)
    log = []
    beh = [{}]

    def reader(name, tag):
        def rd(filename):
            log.append(("r", name, tag, filename))
            b = beh[0][name]
            if b == "ok":
                return mesh_for(tag)
            raise meshio.ReadError("not mine") if b == "reject" else EXC[b]("made up")
        return rd

    def writer(name, tag):
        def wr(filename, mesh, **kw):
            log.append(("w", name, tag, filename, mesh, kw))
            b = beh[0][name]
            if b != "ok":
                raise meshio.WriteError("not mine") if b == "reject" else EXC[b]("made up")
        return wr

    trace = []
    for k, st in enumerate(steps):
        if st["do"] == "reg":
            model.reg(st)
            meshio.register_format(st["name"], list(st["exts"]), reader(st["name"], st["tag"]) if st["reader"] else None, {w: writer(w, st["tag"]) for w in st["writers"]})
            trace.append("reg")
            continue
        if st["do"] == "dereg":
            model.dereg(st)
            o, v = core.call(lambda: meshio.deregister_format(st["name"]))
            if o == "raise":
                return trace, f"step {k}: deregister_format({st['name']!r}) raised {v}"
            trace.append("dereg")
            continue
        beh[0] = st["beh"]
        log.clear()
        made, want = model.call(st)
        if want in ("?", "builtin"):
            trace.append("skip")
            continue
        path = st["file"]
        if st["missing"] and st["do"] == "read":
            path = os.path.join(os.path.dirname(path), "nope." + os.path.basename(path).lstrip("."))
        arg = io.BytesIO(b"x") if st["how"] == "stream" else pathlib.Path(path) if st["how"] == "path" else path
        kw = {"special": 3} if st["kw"] else {}
        m = mesh_for(7)
        if st["do"] == "read":
            fn = (lambda: meshio.Mesh.read(arg, st["fmt"])) if st["api"] == "mesh" else (lambda: meshio.read(arg, file_format=st["fmt"]))
        elif st["api"] == "mesh":
            fn = lambda: m.write(arg, file_format=st["fmt"], **kw)  # noqa: E731
        elif st["api"] == "pc":
            fn = lambda: meshio.write_points_cells(arg, m.points, m.cells, file_format=st["fmt"], **kw)  # noqa: E731
        else:
            fn = lambda: meshio.write(arg, m, file_format=st["fmt"], **kw)  # noqa: E731
        o, v = core.call(fn)
        got = [(x[1], x[2]) for x in log]
        what = f"step {k}: {st['do']} {path!r} ({st['how']}, format {st['fmt']})"
        trace.append((st["do"], o, len(got)))
        if got != made:
            return trace, f"{what}: called {got}, the registry says {made}"
        for x in log:
            if st["how"] == "stream" and x[3] is not arg or st["how"] != "stream" and os.fspath(x[3]) != str(pathlib.Path(path)):
                return trace, f"{what}: {x[1]} was given {x[3]!r}"
            if x[0] == "w" and x[5] != kw:
                return trace, f"{what}: {x[1]} was given options {x[5]}, not {kw}"
            if x[0] == "w" and not np.array_equal(x[4].points, m.points):
                return trace, f"{what}: {x[1]} was given another mesh"
        if want == "fails":
            if o != "raise":
                return trace, f"{what}: returned, the registry knows no format that takes it"
        elif isinstance(want, tuple) and want[0] == "raises":
            if o != "raise" or v["type"] != want[1]:
                return trace, f"{what}: {v if o == 'raise' else 'returned'}, its format raised {want[1]}"
        elif o != "ok":
            return trace, f"{what}: raised {v}, its format accepts it"
        elif st["do"] == "read":
            exp = mesh_for(want[1]) if want[0] == "made" else real[want[1]]
            if not np.array_equal(v.points, exp.points):
                return trace, f"{what}: returned another mesh than that of {want}"
    # the public table agrees with the history
    now = {e: list(v) for e, v in meshio.extension_to_filetypes.items()}
    for e in sorted(set(now) | set(model.ext)):
        if now.get(e, []) != model.ext.get(e, []):
            return trace, f"at the end: {e} is registered for {now.get(e, [])}, not {model.ext.get(e, [])}"
    return trace, None


# an explicit format is the one that is written: what the files start with
HEAD = {"vtk42": (".vtk", b"# vtk DataFile Version 4.2"), "vtk51": (".vtk", b"# vtk DataFile Version 5.1"), "vtk": (".vtk", b"# vtk DataFile Version 5.1"), "gmsh22": (".msh", b"$MeshFormat\n2.2 "), "gmsh": (".msh", b"$MeshFormat\n4.1 "),
        "xdmf": (".xdmf", b"<Xdmf Version=\"3.0\">"), "vtu": (".vtu", b"<?xml version=\"1.0\"?>\n<VTKFile type=\"UnstructuredGrid\""), "medit": (".mesh", b"MeshVersionFormatted"), "off": (".off", b"OFF"), "ply": (".ply", b"ply\n"),
        "ansys": (".msh", b"(1 \"meshio"), "abaqus": (".inp", b"*HEADING"), "su2": (".su2", b"NDIME"), "hmf": (".hmf", b"\x89HDF"), "med": (".med", b"\x89HDF"), "h5m": (".h5m", b"\x89HDF"), "cgns": (".cgns", b"\x89HDF")}


def ph_head(root, name, odd):
    import meshio

    core.install(root)
    os.chdir(root)
    ext, head = HEAD[name]
    p = "x" + (".dat" if odd else ext)
    o, v = core.call(lambda: meshio.write(p, mesh_for(1), file_format=name))
    if o == "raise":
        return [("head", name)], f"write {p!r} with format {name!r} raised {v}"
    with open(p, "rb") as f:
        b = f.read(len(head))
    return [("head", name)], None if b == head else f"write {p!r} with format {name!r} made a file that starts with {b!r}, not {head!r}"


def run(sc, disk):
    if sc.get("head"):
        r = core.phase(ph_head, disk.root, *sc["head"])
    else:
        r = core.phase(ph, disk.root, sc["steps"])
    res = {"phases": 1, "fired": {}, "ops": 0, "nontrivial": True}
    if not r.ok:
        return dict(res, outcome="died", digest=(r.code, r.sig), violation=ops.V("died", "registry", f"the process dies or hangs (exit {r.code}, signal {r.sig})"))
    trace, msg = r.value
    for st in sc.get("steps", []):
        if st["do"] in ("read", "write") and msg is None:
            k = "rejecting or failing format"
            res["fired"][k] = res["fired"].get(k, 0) + 1
    res["nontrivial"] = any(isinstance(t, tuple) for t in trace)
    res["outcome"] = "history"
    res["behaviour"] = ops.digest(trace, [(s["do"], s.get("name"), s.get("file"), s.get("fmt")) for s in sc.get("steps", [])])
    res["digest"] = (repr(trace), msg)
    if msg:
        res["violation"] = ops.V("registry", "registry", msg)
    return res


_gen = gen


def gen(rng, i, tier):  # noqa: F811
    if i % 25 == 24:
        return {"head": [rng.choice(sorted(HEAD)), rng.random() < 0.3], "steps": []}
    return _gen(rng, i, tier)


def shrink(sc):
    S = sc["steps"]
    if len(S) > 3:
        yield dict(sc, steps=S[: len(S) // 2])
        yield dict(sc, steps=S[len(S) // 2:])
    for j in range(len(S)):
        yield dict(sc, steps=S[:j] + S[j + 1:])
    for j, s in enumerate(S):
        for kw in ({"kw": False}, {"api": "fn"}, {"how": "str"}):
            if s["do"] in ("read", "write") and any(s[k] != v for k, v in kw.items()):
                yield dict(sc, steps=S[:j] + [dict(s, **kw)] + S[j + 1:])
        if s["do"] == "reg":
            for x in s["exts"]:
                yield dict(sc, steps=S[:j] + [dict(s, exts=[y for y in s["exts"] if y != x])] + S[j + 1:])
