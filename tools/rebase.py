"""Refresh seeded patches that no longer apply to /repo's HEAD (fuzzy apply, then regenerate)."""
import os, subprocess
S = "/verif/seeded"
for i in sorted(os.listdir(S)):
    p = f"{S}/{i}/patch.diff"
    ok = subprocess.run(["git", "-C", "/repo", "apply", "--check", p], capture_output=True).returncode == 0
    if not ok:
        r = subprocess.run(f"cd /repo && patch -p1 --no-backup-if-mismatch -F3 < {p}", shell=True, capture_output=True, text=True)
        if r.returncode == 0:
            open(p, "w").write(subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout)
        print(i, "refreshed" if r.returncode == 0 else "FAILS " + r.stdout[-200:])
        subprocess.run("cd /repo && git checkout -q -- . && git clean -fdq src", shell=True)
