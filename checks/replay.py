"""Replay a violation: python3 checks/replay.py FILE.  Exit 1 if it reproduces."""
import json, os, sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import engine

d = json.load(open(sys.argv[1]))
g = engine.run_scenarios(d["property"], [d["scenario"]], d.get("hashseed", "0"))[0]
v = g["res"].get("violation")
print(json.dumps(g["res"], indent=1, default=str))
if v and v["class"] == d["violation"]["class"]:
    print("same execution" if g["digest"] == d["digest"] else "same violation, different event log")
    print(f"VIOLATION property={d['property']} replay={sys.argv[1]}")
    sys.exit(1)
print("not reproduced")
