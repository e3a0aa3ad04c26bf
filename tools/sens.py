"""tools/sens.py [ID...]: apply each seeded bug to /repo in turn, run its property's quick check, restore; prints caught/missed."""
import json, os, subprocess, sys, time
S = "/verif/seeded"
ids = sys.argv[1:] or sorted(os.listdir(S))
for i in ids:
    m = json.load(open(f"{S}/{i}/meta.json"))
    a = subprocess.run(["git", "-C", "/repo", "apply", f"{S}/{i}/patch.diff"], capture_output=True, text=True)
    if a.returncode:
        print(i, "DOES NOT APPLY", a.stderr[:100]); continue
    t = time.time()
    try:
        c = subprocess.run(["bash", "checks/run.sh", m["property"], "quick", "--no-evidence"], cwd="/verif", capture_output=True, text=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    v = [l for l in c.stdout.splitlines() if l.startswith("violation:")]
    print(f"{i:28s} {m['property']} {'CAUGHT' if c.returncode == 1 else 'MISSED rc=%d' % c.returncode} {time.time()-t:.0f}s {v[0][:150] if v else ''}", flush=True)
