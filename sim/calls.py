"""Calls as data: one read or write each, in a directory of its own, with an
observable result that can be compared between processes and schedules."""
import os

from . import core, meshgen, ops
from .formats import CFGS

STILL = {"clock": {"step": 0}}  # a clock that stands still: time stamps in headers are equal everywhere


def draw(rng, names, k, kinds=("write", "write", "read"), size=None, spec=None):
    """One call, in directory o<k>."""
    name = rng.choice(names)
    cfg = CFGS[name]
    kind = rng.choice(kinds)
    if kind == "read" and not cfg.reader:
        kind = "write"
    t = ops.draw_target(rng, cfg, 0.7)
    t["path"] = f"o{k}/" + os.path.basename(t["path"])
    t["cwd"] = "."
    if spec is not None and kind == "write":
        s = spec
    else:
        s = meshgen.gen_spec(rng, cfg, size=size or rng.choice(["tiny", "small"]))
    return {"kind": kind, "cfg": name, "spec": s, "target": t}


def prepare(root, op):
    """Put the file of a read call in place (its own process, fault free)."""
    core.phase(_prep, root, op)


def _prep(root, op):
    core.install(root, STILL)
    ops.stage(root, op["target"])
    if op["kind"] == "read":
        core.call(lambda: ops.invoke_write(root, op, meshgen.build(op["spec"])))
    return True


def perform(root, op, mesh=None):
    """The call itself: returns the mesh read, or None."""
    if op["kind"] == "write":
        return ops.invoke_write(root, op, mesh if mesh is not None else meshgen.build(op["spec"]))
    return ops.invoke_read(root, op)


def own_files(root, op):
    d = os.path.dirname(op["target"]["path"])
    return core.tree(os.path.join(root, d))


def observe(op, o, v):
    """Outcome of a call, as comparable data (taken in the same process)."""
    if o == "raise":
        return ("raise", v["type"], v["msg"])
    if op["kind"] == "read":
        return ("ok", meshgen.snap_mesh(v))
    return ("ok", None)


def ph_alone(root, op, plan=None):
    core.install(root, plan or STILL)
    os.chdir(root)
    mesh = meshgen.build(op["spec"]) if op["kind"] == "write" else None
    o, v = core.call(lambda: perform(root, op, mesh))
    return {"obs": observe(op, o, v), "stats": core.stats(), "info": v if o == "raise" else None}


def describe(op):
    return f"{op['kind']} {op['cfg']}"


def differs(op, want, got, wfiles=None, gfiles=None):
    """None, or how a call's result differs from the same call made alone."""
    if want[0] != got[0]:
        return f"{describe(op)}: outcome {got[:3] if got[0] == 'raise' else 'ok'}, alone {want[:3] if want[0] == 'raise' else 'ok'}"
    if want[0] == "raise":
        return None if want[1] == got[1] else f"{describe(op)}: raised {got[1]}: {got[2]}, alone {want[1]}: {want[2]}"
    if op["kind"] == "read":
        d = meshgen.diff_snap(want[1], got[1])
        return d and f"{describe(op)}: a different mesh is returned: {d}"
    if wfiles is not None:
        if sorted(wfiles) != sorted(gfiles):
            return f"{describe(op)}: files {sorted(gfiles)}, alone {sorted(wfiles)}"
        for f in wfiles:
            if wfiles[f][1] != gfiles[f][1]:
                return f"{describe(op)}: the bytes of {f} differ from those written alone"
    return None
