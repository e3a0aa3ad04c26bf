"""P10: every call is independent of the calls made before it."""
import hashlib
import os
import random

import numpy as np

from sim import calls, core, interrupt, meshgen, ops
from sim.formats import CFGS

NAMES = sorted(CFGS)
RUNS = {"quick": 3500, "thorough": 200000}
LEVEL = "exploration"
RULE = ("a run = a history of 3 to 9 steps in one process: reads and writes of any formats, to new paths or to paths used before, of new meshes or of a mesh object written before and since edited in place, calls that are refused, "
        "fail on storage or are interrupted at any statement of meshio, and edits of the meshes returned; every undisturbed call's result (mesh, bytes of its files, or exception) is compared with the same call made as the first one "
        "of a fresh process on the same stored bytes; distinct by (kinds and formats in the history); non-trivial = at least two calls")
ASSUMPTIONS = ["meshes written repeatedly carry no two-component data and no sets: the VTK/VTU writers' conversions of those in place are the recorded finding of P03"]


def plain(spec):
    spec = dict(spec)
    for key in ("pd", "cd"):
        spec[key] = [d for d in spec.get(key, []) if d[2] != 2]
    for key in ("ps", "cs", "sp"):
        spec.pop(key, None)
    return spec


def gen(rng, i, tier):
    focus = ops.pick_cfg(rng, i, NAMES)
    names = [focus] * 3 + rng.sample(NAMES, 3) if rng.random() < 0.7 else NAMES
    steps = []
    n = rng.randint(3, 9)
    k = 0
    while len(steps) < n:
        u = rng.random()
        clean = [s for s in steps if s["do"] == "call" and s["kind"] == "write" and not s.get("dist") and not s.get("spoilt")]
        if u < 0.25 and clean:  # overwrite an earlier target with another mesh of the same shape, later read it
            o = rng.choice(clean)
            st = dict(o, spec=dict(o["spec"], seed=rng.randrange(2**32)), obj=None, edit=None)
            if rng.random() < 0.5:
                st["spec"] = plain(meshgen.gen_spec(rng, CFGS[o["cfg"]], size="small"))
            for s in steps:
                if s.get("target") == o["target"]:
                    s["over"] = True
        elif u < 0.5 and clean:  # read an earlier target
            o = rng.choice(clean)
            if not CFGS[o["cfg"]].reader:
                continue
            st = {"do": "call", "kind": "read", "cfg": o["cfg"], "spec": o["spec"], "target": o["target"]}
        elif u < 0.65 and clean:  # edit the mesh object in place and write it again, elsewhere or to the same place
            o = rng.choice(clean)
            st = dict(o, obj=o["id"], edit=rng.randrange(2**32))
            if rng.random() < 0.5:
                st["target"] = dict(o["target"], path=f"o{k}/" + os.path.basename(o["target"]["path"]))
                k += 1
        elif u < 0.75 and steps:
            steps.append({"do": "edit", "seed": rng.randrange(2**32)})
            continue
        else:
            op = calls.draw(rng, names, k)
            k += 1
            st = dict(op, do="call", obj=None, edit=None)
            st["spec"] = plain(st["spec"])
            if op["kind"] == "read":
                st["prep"] = True
        if st["do"] == "call":
            st["id"] = len(steps) if st.get("obj") is None else st["obj"]
            st.pop("over", None)
            if rng.random() < 0.22:
                d = rng.random()
                if d < 0.45:
                    st["dist"] = {"kind": "interrupt", "at": int(10 ** (rng.random() * 3)), "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])}
                elif d < 0.8:
                    op = rng.choice(["write", "open_w", "close_w"] if st["kind"] == "write" else ["read", "open_r"])
                    st["dist"] = {"kind": "fault", "op": op, "nth": rng.choice([1, 1, 2, 3, 5]), "err": rng.choice(ops.W_ERRS[op] if op in ops.W_ERRS else ["EIO"]), "sticky": rng.randrange(2)}
                else:
                    st["dist"] = {"kind": "garbage", "seed": rng.randrange(2**32)} if st["kind"] == "read" else {"kind": "refuse"}
                for s in steps:
                    if s.get("target") == st["target"]:
                        s["spoilt"] = True
                if st["kind"] == "write" and st["obj"] is None:
                    st["target"] = dict(st["target"])
        steps.append(st)
    for s in steps:
        s.pop("spoilt", None)
        s.pop("over", None)
    return {"steps": steps}


def edit(mesh, seed):
    """Edit a mesh in place (reversals keep it storable in every format)."""
    r = random.Random(seed)

    def rev(a):
        if isinstance(a, np.ndarray) and a.ndim and a.flags.writeable:
            a[...] = a[::-1].copy()

    for what in r.sample(["points", "cells", "pd", "cd", "rebind"], r.randint(1, 4)):
        if what == "points":
            rev(mesh.points)
        elif what == "cells":
            for c in mesh.cells:
                rev(c.data)
        elif what == "pd":
            for v in mesh.point_data.values():
                rev(v)
        elif what == "cd":
            for v in mesh.cell_data.values():
                for x in v:
                    rev(x)
        elif len(mesh.points):
            mesh.points = np.array(mesh.points[::-1])
    return mesh


def scribble(mesh, seed):
    """What a caller may do to a mesh that was returned."""
    r = random.Random(seed)
    for a in meshgen.all_arrays(mesh):
        if isinstance(a, np.ndarray) and a.size and a.flags.writeable and a.dtype != object:
            a[...] = 7
    mesh.point_data["scribble"] = np.zeros(len(mesh.points))
    mesh.cell_data.clear()
    mesh.field_data["x"] = 1
    if r.random() < 0.5:
        mesh.cells.clear()


def built(st, edits=()):
    m = meshgen.build(st["spec"])
    for e in edits:
        edit(m, e)
    return m


def spoil(mesh):
    """A mesh that no writer accepts: connectivity of the wrong width."""
    import meshio

    return meshio.Mesh(mesh.points, [meshio.CellBlock("triangle", np.zeros((2, 5), dtype=int))])


def files(root, st):
    t = core.tree(os.path.join(root, os.path.dirname(st["target"]["path"])))
    return {f: hashlib.sha256(v[1]).hexdigest() for f, v in t.items()}


def plan_of(st):
    d = st.get("dist")
    p = dict(calls.STILL)
    if d and d["kind"] == "fault":
        p["faults"] = [{"op": d["op"], "nth": d["nth"], "act": "err", "err": d["err"], "sticky": d["sticky"]}]
    return p


def one(root, disk, st, objs, returned, fresh=None):
    """Perform one call in this process; observation, files, faults, and the
    description (spec, edits made so far) of the mesh object that was written.
    objs: id -> [mesh object, the step that made it, edits made to it]."""
    core.install(disk, plan_of(st))
    what = None
    if st["kind"] == "write":
        if st.get("dist", {}).get("kind") == "refuse":
            mesh = spoil(meshgen.build(st["spec"]))
        elif fresh is not None:
            mesh = built({"spec": fresh[0]}, fresh[1])
        else:
            if st.get("obj") is None or st["obj"] not in objs:
                objs[st["id"]] = [meshgen.build(st["spec"]), st["spec"], []]
            rec = objs[st["id"]]
            mesh = rec[0]
            if st.get("edit") is not None:
                edit(mesh, st["edit"])
                rec[2].append(st["edit"])
            what = (rec[1], list(rec[2]))
            if st.get("dist"):
                del objs[st["id"]]
        fn = lambda: ops.invoke_write(root, st, mesh)
    else:
        fn = lambda: ops.invoke_read(root, st)
    d = st.get("dist") or {}
    if d.get("kind") == "interrupt":
        with interrupt.Lines(at=d["at"], exc=d["exc"]) as ln:
            o, v = core.call(fn)
        fired = {d["exc"]: 1} if ln.fired else {}
    else:
        o, v = core.call(fn)
        fired = core.stats()["fired"]
    obs = calls.observe(st, o, v)
    if o == "ok" and st["kind"] == "read":
        returned.append(v)
    return obs, files(root, st) if st["kind"] == "write" and not d else None, fired, what


def stage_one(root, st):
    os.makedirs(os.path.join(root, os.path.dirname(st["target"]["path"])), exist_ok=True)


def put_garbage(root, st, seed):
    p = os.path.join(root, st["target"]["path"])
    try:
        with open(p, "rb") as f:
            keep = f.read()
    except OSError:
        keep = None
    r = random.Random(seed)
    with open(p, "wb") as f:
        f.write((keep or b"")[: r.randint(0, len(keep or b""))] + r.randbytes(r.randint(0, 40)))
    return keep


def ph_prep(root, disk, st):
    core.install(disk, calls.STILL)
    stage_one(root, st)
    core.call(lambda: ops.invoke_write(root, st, meshgen.build(st["spec"])))
    return True


def ph_history(root, disk, steps):
    os.chdir(root)
    objs, returned, out, fired = {}, [], [], {}
    for st in steps:
        if st["do"] == "edit":
            for m in returned:
                scribble(m, st["seed"])
            returned.clear()
            out.append(None)
            continue
        g = st.get("dist", {}).get("kind") == "garbage"
        if g:
            keep = put_garbage(root, st, st["dist"]["seed"])
        a, b, f, what = one(root, disk, st, objs, returned)
        if g:
            p = os.path.join(root, st["target"]["path"])
            if keep is None:
                os.unlink(p)
            else:
                with open(p, "wb") as fh:
                    fh.write(keep)
            f["garbage file"] = 1
        for k, n in f.items():
            fired[k] = fired.get(k, 0) + n
        out.append((a, b, what))
    return {"out": out, "fired": fired}


def ph_fresh(root, disk, st, what):
    os.chdir(root)
    return one(root, disk, st, {}, [], what)[:2]


def run(sc, disk):
    H, A = os.path.join(disk.root, "h"), os.path.join(disk.root, "a")
    steps = sc["steps"]
    for root in (H, A):
        os.makedirs(root)
        for st in steps:
            if st["do"] == "call":
                stage_one(root, st)
                if st.get("prep"):
                    core.phase(ph_prep, root, disk.root, st)
    r = core.phase(ph_history, H, disk.root, steps)
    sig = [(s["do"], s.get("kind"), s.get("cfg"), (s.get("dist") or {}).get("kind"), s.get("obj") is not None) for s in steps]
    res = {"phases": 1, "fired": {}, "ops": 0, "nontrivial": sum(s["do"] == "call" for s in steps) > 1, "behaviour": ops.digest(sig)}
    if not r.ok:
        if any(s.get("dist") and ops.is_hdf(s["cfg"]) for s in steps if s["do"] == "call"):
            return dict(res, outcome="library crash", digest=(r.code, r.sig), nontrivial=False)
        return dict(res, outcome="died", digest=(r.code, r.sig), violation=ops.V("died", "history", f"the process died (exit {r.code} signal {r.sig}): {sig}"))
    res["fired"] = r.value["fired"]
    res["outcome"] = "compared"
    dg = []
    for j, (st, got) in enumerate(zip(steps, r.value["out"])):
        if st["do"] != "call" or (st.get("dist") and st["dist"]["kind"] != "refuse"):
            continue
        f = core.phase(ph_fresh, A, disk.root, st, got[2])
        res["phases"] += 1
        if not f.ok:
            return dict(res, outcome="fresh call died", digest=(f.code, f.sig))
        want, wf = f.value
        g, gf, _ = got
        d = calls.differs(st, want, g)
        if d is None and want[0] == "ok" and st["kind"] == "write" and not st.get("dist") and wf != gf:
            bad = sorted(x for x in set(wf) | set(gf) if wf.get(x) != gf.get(x))
            d = f"{calls.describe(st)}: {bad} differ from what a fresh process writes"
        dg.append((want[0], d))
        if d:
            res["violation"] = ops.V("history", st["cfg"], f"after {[x[1:4] for x in sig[:j]]}: {d}")
            break
    res["digest"] = tuple(dg)
    return res


def shrink(sc):
    S = sc["steps"]
    for j in range(len(S)):
        if len(S) > 1:
            yield dict(sc, steps=S[:j] + S[j + 1:])
    for j, st in enumerate(S):
        if st["do"] == "call" and st.get("obj") is None and not any(x.get("obj") == st.get("id") for x in S if x is not st):
            for s in ops.shrink_spec(st["spec"], CFGS[st["cfg"]]):
                yield dict(sc, steps=S[:j] + [dict(st, spec=s)] + S[j + 1:])
