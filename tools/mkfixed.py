#!/opt/venv/bin/python
"""Record the repairs committed in /repo as "fixed" entries of known_findings.json."""
import json
import re
import subprocess

PROP = [("time series", "P12"), ("through the file object", "P02"), ("closed explicitly", "P02"), ("storage errors are raised", "P02"), ("is not modified", "P03"), ("are not modified", "P03"),
        ("in the mesh", "P03"), ("read from buffers", "P14"), ("to a buffer", "P14"), ("binary streams", "P14"), ("loop forever", "P07"), ("catastrophic", "P01"), ("errors while reading", "P05"),
        ("not taken as missing", "P05"), ("a read error", "P05"), ("truncated", "P06"), ("without vertices", "P06"), ("in-place", "P13"), ("int-data-to-sets", "P13"), ("point_data_to_sets", "P13"),
        ("not identifiers", "P13"), ("vtk51 wrote", "P16"), ("deregister", "P16"), ("read-only", "P17")]
EXTRA = json.load(open("/verif/tools/fixed_extra.json"))
F = "/verif/known_findings.json"
k = json.load(open(F))
out = []
for line in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines():
    h, s = line.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    p = EXTRA.get(s) or next((p for t, p in PROP if t in s), "P01")
    out.append(f"fixed: property={p} {h} {s}")
k["fixed"] = out
json.dump(k, open(F, "w"), indent=1)
open(F, "a").write("\n")
print(len(out))
