"""tools/plant.py ID PROPERTY  <  JSON {edits:[[file,old,new],...], demo: python text, needs, breaks}
Plants a bug in /repo's working tree, confirms it (stable tests pass, demo fails with it and passes without), records it in seeded/ID, and reports whether the quick check sees it.
Always restores /repo."""
import json, os, subprocess, sys
ID, PROP = sys.argv[1:3]
R = "/repo"
D = f"/verif/seeded/{ID}"
spec = {}
exec(sys.stdin.read(), spec)
assert not subprocess.run(["git", "-C", R, "status", "--porcelain", "-uno"], capture_output=True, text=True).stdout.strip(), "repo dirty"
def demo():
    p = subprocess.run(["bash", f"{D}/demo.sh"], cwd=R, capture_output=True, text=True, timeout=300)
    return p.returncode, (p.stdout + p.stderr)[-300:]
try:
    for f, a, b in spec["edits"]:
        p = f"{R}/src/meshio/{f}"
        s = open(p).read()
        assert s.count(a) == 1, (f, s.count(a), a)
        open(p, "w").write(s.replace(a, b))
    os.makedirs(D, exist_ok=True)
    open(f"{D}/patch.diff", "w").write(subprocess.run(["git", "-C", R, "diff"], capture_output=True, text=True).stdout)
    open(f"{D}/demo.sh", "w").write("#!/bin/bash\n# exit 0: the property holds; nonzero: it is broken\nexec /opt/venv/bin/python - <<'EOF'\nimport os, sys, tempfile, shutil\nimport numpy as np\nimport meshio\nd = tempfile.mkdtemp()\nimport atexit; atexit.register(shutil.rmtree, d, True)\n" + spec["demo"].strip() + "\nEOF\n")
    json.dump({"property": PROP, "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(f"{D}/meta.json", "w"), indent=1)
    subprocess.run(["bash", "/opt/vp/test.sh", "/tmp/o.json"], capture_output=True)
    o = json.load(open("/tmp/o.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = set(base.get("stable") or base.get("passed") or base.get("tests") or [])
    lost = stable - set(o["passed"])
    print("tests lost:", len(lost), sorted(lost)[:3])
    r1 = demo()
    print("demo with patch:", r1)
    if "--nocheck" not in sys.argv:
        c = subprocess.run(["bash", "checks/run.sh", PROP, "quick", "--no-evidence"], cwd="/verif", capture_output=True, text=True)
        print("check:", c.returncode, "\n".join(l[:260] for l in c.stdout.splitlines() if l.lower().startswith("violation")))
finally:
    subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."])
r0 = demo()
print("demo clean:", r0)
ok = not lost and r1[0] != 0 and r0[0] == 0
print("VALID" if ok else "INVALID")
