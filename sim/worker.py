"""Worker process: executes scenarios of one check.  Started by sim.engine with
the seam preloaded; talks JSON lines on stdout."""
import collections
import hashlib
import importlib
import json
import re
import os
import random
import sys
import time
import traceback


def load_meshio():
    import h5py  # noqa: F401
    import netCDF4  # noqa: F401
    import numpy  # noqa: F401

    import meshio
    import meshio._cli._main  # noqa: F401

    src = os.environ.get("MESHIO_SRC", "/repo/src")
    if not os.path.realpath(meshio.__file__).startswith(os.path.realpath(src) + os.sep):
        raise SystemExit(f"meshio was imported from {meshio.__file__}, not from {src}")
    # pre-touch what the first call would initialise lazily in every child
    import rich.console  # noqa: F401
    import rich.markup  # noqa: F401
    with open(os.devnull, "w") as null:
        rich.console.Console(file=null).print("[yellow][bold]Warning:[/bold] [italic]x[/italic] :smile: 1 'a' /b/c[/yellow]")
    import warnings

    warnings.simplefilter("ignore")
    import gc

    gc.collect()
    gc.freeze()


def out(obj):
    sys.__stdout__.write(json.dumps(obj, default=str) + "\n")
    sys.__stdout__.flush()


def execute(check, scenario, scratch):
    """One run.  Returns the result dict; harness errors are kept apart."""
    from . import core

    scratch.clear()
    try:
        return check.run(scenario, scratch)
    except core.HarnessError as e:
        return {"harness": str(e)}
    except Exception:  # the check's own code failed: never a violation
        return {"harness": traceback.format_exc()}


def rdigest(res):
    """Identifies an execution; the scratch directory's name and object addresses are not part of it."""
    t = json.dumps([res.get("digest"), (res.get("violation") or {}).get("class")], default=str)
    t = re.sub(r"/[^\s'\"]*?msim\.[^/]+/[^/]+/", "/ROOT/", t)
    t = re.sub(r"0x[0-9a-f]{6,}", "0xADDR", t)
    return hashlib.blake2b(t.encode(), digest_size=8).hexdigest()


def main():
    job = json.load(open(sys.argv[1]))
    load_meshio()
    from . import core

    core.lib()
    check = importlib.import_module("checks." + job["prop"].lower())
    scratch = core.Scratch(job["scratch"])
    mode = job["mode"]
    if mode == "search":
        return search(job, check, scratch)
    if mode == "run":
        for sc in job["scenarios"]:
            res = execute(check, sc, scratch)
            out({"t": "res", "res": res, "digest": rdigest(res)})
        return
    if mode == "min":
        return minimise(job, check, scratch)


def search(job, check, scratch):
    agg = collections.Counter()
    fired = collections.Counter()
    probes = collections.Counter()
    outcomes = collections.Counter()
    behaviours = set()
    nontrivial = set()
    samples = []
    harness = []
    digests = {}
    known = job.get("known", [])
    t0 = time.monotonic()
    i = job["start"]
    rec = os.environ.get("SIM_RECORD")
    while i < job["count"]:
        rng = random.Random(f"{job['prop']}/{job['seed']}/{i}")
        scenario = check.gen(rng, i, job["tier"])
        res = execute(check, scenario, scratch)
        agg["runs"] += 1
        if "harness" in res:
            harness.append({"i": i, "err": res["harness"][-1500:], "scenario": scenario})
            i += job["stride"]
            continue
        for k, v in (res.get("fired") or {}).items():
            fired[k] += v
        for k, v in (res.get("probes") or {}).items():
            probes[k] += v
        agg["ops"] += res.get("ops", 0)
        agg["phases"] += res.get("phases", 1)
        outcomes[res.get("outcome", "?")] += 1
        b = res.get("behaviour")
        if b is not None:
            behaviours.add(b)
            if res.get("nontrivial", True):
                nontrivial.add(b)
        if len(samples) < 2 and res.get("nontrivial", True):
            samples.append({"i": i, "scenario": scenario, "outcome": res.get("outcome")})
        d = rdigest(res)
        if rec:
            digests[i] = d
        # determinism probe: every so often the same scenario again, at once
        if i % job.get("det_every", 97) == 0:
            res2 = execute(check, scenario, scratch)
            agg["det_pairs"] += 1
            if rdigest(res2) != d:
                agg["det_mismatch"] += 1
                harness.append({"i": i, "err": "nondeterministic run", "scenario": scenario, "a": res.get("digest"), "b": res2.get("digest")})
        v = res.get("violation")
        if v:
            kf = match_known(known, v)
            if kf is not None:
                agg[f"known:{kf}"] += 1
            else:
                out({"t": "violation", "i": i, "scenario": scenario, "violation": v})
                agg["violations"] += 1
                if agg["violations"] >= job.get("max_violations", 1):
                    break
        if agg["runs"] % 16 == 0:
            try:
                with open(job["stop"]) as f:
                    s = f.read()
                if s and int(s) < i:
                    agg["stopped"] += 1
                    break
            except OSError:
                pass
        i += job["stride"]
    out({"t": "done", "agg": agg, "fired": fired, "probes": probes, "outcomes": outcomes, "behaviours": sorted(behaviours), "nontrivial": sorted(nontrivial),
         "samples": samples, "harness": harness[:5], "nharness": len(harness), "wall": time.monotonic() - t0, "digests": digests})


def match_known(known, v):
    import re

    for k, f in enumerate(known):
        if all(re.fullmatch(pat, str(v.get(field, ""))) for field, pat in f["match"].items()):
            return k
    return None


def minimise(job, check, scratch):
    sc, cls = job["scenario"], job["class"]
    budget = job.get("budget", 400)
    deadline = time.monotonic() + job.get("seconds", 60)
    best_res = None
    tried = 0
    improved = True
    seen = set()
    while improved and tried < budget:
        improved = False
        for cand in check.shrink(sc):
            key = json.dumps(cand, sort_keys=True)
            if key in seen or key == json.dumps(sc, sort_keys=True):
                continue
            seen.add(key)
            tried += 1
            if tried > budget or time.monotonic() > deadline:
                improved = False
                break
            res = execute(check, cand, scratch)
            if "harness" not in res and (res.get("violation") or {}).get("class") == cls:
                sc, best_res = cand, res
                improved = True
                break
        else:
            break
    out({"t": "min", "scenario": sc, "res": best_res, "tried": tried})


if __name__ == "__main__":
    main()
