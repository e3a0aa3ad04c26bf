"""Master: builds the seam, fans runs out over worker processes, minimises and
replays what they report, writes the evidence file, decides the exit status."""
import argparse
import collections
import hashlib
import importlib
import json
import os
import selectors
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = os.environ.get("SIM_PYTHON") or ("/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable)
SRC = os.environ.get("MESHIO_SRC", "/repo/src")


def build_shim():
    src = os.path.join(VERIF, "sim", "shim.c")
    with open(src, "rb") as f:
        h = hashlib.sha256(f.read()).hexdigest()[:16]
    d = os.path.join(VERIF, "build")
    os.makedirs(d, exist_ok=True)
    so = os.path.join(d, f"simio-{h}.so")
    if not os.path.exists(so):
        tmp = so + f".{os.getpid()}"
        subprocess.run(["gcc", "-O1", "-Wall", "-fPIC", "-shared", "-o", tmp, src, "-ldl"], check=True)
        os.replace(tmp, so)
    return so


def scratch_base():
    for d in ("/dev/shm", "/tmp"):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            try:
                return tempfile.mkdtemp(prefix="msim.", dir=d)
            except OSError:
                continue
    return tempfile.mkdtemp(prefix="msim.")


class Workers:
    def __init__(self, prop, hashseed="0"):
        self.prop = prop
        self.so = build_shim()
        self.base = scratch_base()
        self.hashseed = hashseed
        self.n = 0

    def env(self):
        e = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "LC_", "LANG", "HDF5", "NETCDF"))}
        e.update(LD_PRELOAD=self.so, PYTHONHASHSEED=str(self.hashseed), PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=f"{VERIF}:{SRC}", PYTHONUTF8="1",
                 PYTHONPYCACHEPREFIX=os.path.join(self.base, "pyc"), MESHIO_SRC=SRC, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", TZ="UTC",
                 HDF5_USE_FILE_LOCKING="FALSE", LC_ALL="C.UTF-8", COLUMNS="80", TERM="dumb", NO_COLOR="1", HOME=self.base)
        return e

    def start(self, job):
        self.n += 1
        d = os.path.join(self.base, f"w{self.n:04d}")
        os.makedirs(d)
        job = dict(job, prop=self.prop, scratch=d)
        with open(os.path.join(d, "job.json"), "w") as f:
            json.dump(job, f)
        return subprocess.Popen([PY, "-X", "utf8", "-m", "sim.worker", os.path.join(d, "job.json")], cwd=VERIF, env=self.env(),
                                stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)

    def collect(self, procs, on_msg, deadline):
        """Pump the workers' lines; returns the list of workers that failed."""
        sel = selectors.DefaultSelector()
        bufs, errs = {}, {}
        for k, p in enumerate(procs):
            bufs[k], errs[k] = b"", b""
            sel.register(p.stdout, selectors.EVENT_READ, (k, "o"))
            sel.register(p.stderr, selectors.EVENT_READ, (k, "e"))
        live = 2 * len(procs)
        timed_out = False
        while live:
            left = deadline - time.monotonic()
            if left <= 0:
                timed_out = True
                for p in procs:
                    p.kill()
                break
            for key, _ in sel.select(timeout=min(left, 5)):
                k, w = key.data
                b = os.read(key.fileobj.fileno(), 1 << 16)
                if not b:
                    sel.unregister(key.fileobj)
                    live -= 1
                    continue
                if w == "e":
                    errs[k] = (errs[k] + b)[-4000:]
                    continue
                bufs[k] += b
                while b"\n" in bufs[k]:
                    line, bufs[k] = bufs[k].split(b"\n", 1)
                    on_msg(k, json.loads(line))
        bad = []
        for k, p in enumerate(procs):
            p.wait()
            p.stdout.close()
            p.stderr.close()
            if p.returncode != 0:
                bad.append((k, p.returncode, errs[k].decode("utf8", "replace")))
        return bad, timed_out

    def close(self):
        shutil.rmtree(self.base, ignore_errors=True)


def run_scenarios(prop, scenarios, hashseed="0", seconds=600):
    w = Workers(prop, hashseed)
    try:
        got = []
        p = w.start({"mode": "run", "scenarios": scenarios})
        bad, to = w.collect([p], lambda k, m: got.append(m), time.monotonic() + seconds)
        if bad or to:
            raise RuntimeError(f"worker failed: {bad} timed_out={to}")
        return got
    finally:
        w.close()


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [x for x in json.load(f)["findings"] if x["property"] == prop and x.get("status", "open") == "open"]


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int, default=int(os.environ.get("SIM_WORKERS", "0")) or min(8, os.cpu_count() or 1))
    ap.add_argument("--hashseed", default="0")
    ap.add_argument("--record")
    ap.add_argument("--all", action="store_true", help="list every violating run instead of stopping at the first")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args(argv)
    t0 = time.monotonic()
    sys.path.insert(0, VERIF)
    check = importlib.import_module("checks." + a.prop.lower())
    count = a.runs or check.RUNS[a.tier]
    print(f"{a.prop}: seed={a.seed} tier={a.tier} runs={count} workers={a.workers}", flush=True)
    known = known_findings(a.prop)
    W = Workers(a.prop, a.hashseed)
    if a.record:
        os.environ["SIM_RECORD"] = "1"
    try:
        stop = os.path.join(W.base, "stop")
        viol, dones = [], []

        def on_msg(k, m):
            if m["t"] == "violation":
                viol.append(m)
                if a.all:
                    print(json.dumps(m["violation"]), "i=", m["i"], flush=True)
                else:
                    with open(stop, "w") as f:
                        f.write(str(min(v["i"] for v in viol)))
            elif m["t"] == "done":
                dones.append(m)

        procs = [W.start({"mode": "search", "tier": a.tier, "seed": a.seed, "start": k, "stride": a.workers, "count": count, "stop": stop, "known": known,
                          "max_violations": 10**9 if a.all else 1}) for k in range(a.workers)]
        limit = 780 if a.tier == "quick" else 6 * 3600
        bad, timed_out = W.collect(procs, on_msg, t0 + limit)
        return conclude(a, check, W, viol, dones, bad, timed_out, known, t0, count)
    finally:
        W.close()


def conclude(a, check, W, viol, dones, bad, timed_out, known, t0, count):
    agg = collections.Counter()
    fired, probes, outcomes = collections.Counter(), collections.Counter(), collections.Counter()
    beh, nont, samples, harness = set(), set(), [], []
    nharness = 0
    for d in dones:
        agg.update(d["agg"])
        fired.update(d["fired"])
        probes.update(d["probes"])
        outcomes.update(d["outcomes"])
        beh.update(d["behaviours"])
        nont.update(d["nontrivial"])
        samples += d["samples"]
        harness += d["harness"]
        nharness += d["nharness"]
    if a.record:
        dig = {}
        for d in dones:
            dig.update(d["digests"])
        with open(a.record, "w") as f:
            json.dump(dig, f, sort_keys=True)
    confirmed, unreproduced = None, []
    if not a.all:
        for m in sorted(viol, key=lambda v: v["i"]):
            confirmed = confirm(a, check, m, known)
            if confirmed:
                break
            unreproduced.append({"i": m["i"], "violation": m["violation"]})
    wall = time.monotonic() - t0
    for h in harness[:3]:
        print("HARNESS:", h["err"][-1200:], file=sys.stderr)
    for x in bad:
        print("WORKER FAILED:", x, file=sys.stderr)
    search_wall = max([d["wall"] for d in dones] or [wall])
    ev = {
        "property": a.prop, "tier": a.tier, "seed": a.seed, "level": getattr(check, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": agg["runs"], "distinct_nontrivial": len(nont), "rule": check.RULE, "samples": samples[:4],
            "distinct_behaviours": len(beh), "outcomes": dict(outcomes), "faults_fired": dict(fired), "probes": dict(probes),
            "storage_operations_simulated": agg["ops"], "phases": agg["phases"],
            "runs_per_hour": int(agg["runs"] / max(search_wall, 1e-9) * 3600), "seeds": 1, "seeds_per_hour": round(3600 / max(search_wall, 1e-9), 1),
            "simulated_time": f"{agg['phases']} process lifetimes; simulated clock starts at 2020-09-13 and advances 1 ms per reading (no timers exist in meshio)",
            "determinism": {"pairs_rerun": agg["det_pairs"], "mismatches": agg["det_mismatch"]},
            "components": {"real": getattr(check, "REAL", ["meshio", "numpy", "h5py/libhdf5", "netCDF4/libnetcdf", "CPython io", "zlib/lzma/gzip"]),
                           "stub": getattr(check, "STUB", ["system calls on files below the scratch root (sim/shim.c)", "real-time clock", "stdio streams on simulated files (fopencookie over the same seam)"])},
            "harness_errors": nharness, "unreproduced": unreproduced, "known_findings_seen": {k: v for k, v in agg.items() if k.startswith("known:")},
        },
        "assumptions": getattr(check, "ASSUMPTIONS", []), "wall_s": round(wall, 2), "violations": 1 if confirmed else 0,
    }
    if not a.no_evidence:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    for k, f in enumerate(known):
        print(f"KNOWN-FINDING: property={a.prop} {f['what']} (seen {agg.get(f'known:{k}', 0)} times in this run)")
    print(f"{a.prop}: {agg['runs']} runs, {len(nont)} distinct non-trivial, {agg['ops']} storage ops, faults {dict(fired)}, {wall:.1f}s, harness errors {nharness}, unreproduced {len(unreproduced)}")
    if a.all:
        cl = collections.Counter(json.dumps([v["violation"].get("class"), v["violation"].get("cfg")]) for v in viol)
        for k, n in cl.most_common():
            print(n, k)
    if confirmed:
        v, path = confirmed
        print(f"violation: {v['msg']}")
        print(f"VIOLATION property={a.prop} replay={path}", flush=True)
        return 1
    if bad or timed_out or len(dones) < a.workers:
        print(f"{a.prop}: the search did not complete (workers failed: {len(bad)}, timed out: {timed_out})", file=sys.stderr)
        return 3
    if nharness > max(3, agg["runs"] // 20):
        print(f"{a.prop}: {nharness} harness errors", file=sys.stderr)
        return 3
    return 0


def confirm(a, check, m, known):
    """Minimise, then replay in a fresh process twice.  None if it does not reproduce."""
    from .worker import match_known

    v, sc = m["violation"], m["scenario"]
    w = Workers(a.prop, a.hashseed)
    try:
        msgs = []
        p = w.start({"mode": "min", "scenario": sc, "class": v["class"], "seconds": 60 if a.tier == "quick" else 300})
        w.collect([p], lambda k, x: msgs.append(x), time.monotonic() + 150)
        if msgs:
            cand = msgs[-1]["scenario"]
        else:
            cand = sc
    finally:
        w.close()
    for s in ([cand, sc] if cand != sc else [sc]):
        try:
            got = [run_scenarios(a.prop, [s], a.hashseed, 120)[0] for _ in range(2)]
        except Exception as e:
            print("replay failed:", e, file=sys.stderr)
            continue
        vs = [(g["res"].get("violation") or {}) for g in got]
        if all(x.get("class") == v["class"] for x in vs) and got[0]["digest"] != got[1]["digest"]:
            # the code under test itself behaves differently from run to run: the violation has to come back every time
            more = [run_scenarios(a.prop, [s], a.hashseed, 120)[0] for _ in range(3)]
            if all((g["res"].get("violation") or {}).get("class") == v["class"] for g in more):
                got[1] = got[0]
        if all(x.get("class") == v["class"] for x in vs) and got[0]["digest"] == got[1]["digest"] and match_known(known, vs[0]) is None:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            h = hashlib.sha256(json.dumps(s, sort_keys=True).encode()).hexdigest()[:10]
            path = os.path.join(VERIF, "replays", f"{a.prop}-{h}.json")
            with open(path, "w") as f:
                json.dump({"property": a.prop, "seed": a.seed, "run": m["i"], "hashseed": a.hashseed, "scenario": s, "violation": vs[0], "digest": got[0]["digest"],
                           "replay_with": f"python3 checks/replay.py {os.path.relpath(path, VERIF)}"}, f, indent=1)
            return vs[0], path
    return None


if __name__ == "__main__":
    sys.exit(main())
