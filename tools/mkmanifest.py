"""Writes MANIFEST.json for the properties that have a check module."""
import importlib, json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
NA = {
    "P30": "a fixed table compared with external file-format documents: no schedule, fault, crash or history can change the outcome, and the oracle is a specification outside the repository",
    "P31": "pure in-memory conversions without I/O, time, concurrency or state between calls: there is nothing for a simulator to schedule or fail",
    "P32": "argument validation in one constructor, a pure function of its arguments: there is nothing for a simulator to schedule or fail",
}
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
        continue
    if not os.path.exists(os.path.join(R, "checks", i.lower() + ".py")):
        na.append({"property": i, "reason": "check not built yet"})
        continue
    m = importlib.import_module("checks." + i.lower())
    checks.append({"property": i, "quick_cmd": f"bash checks/run.sh {i} quick", "thorough_cmd": f"bash checks/run.sh {i} thorough", "evidence_file": f"evidence/{i}.json",
                   "technique": "deterministic simulation with fault injection: " + getattr(m, "TECH", "seeded search over simulated runs (storage seam, forked process lifetimes)"),
                   "level": m.LEVEL, "level_note": m.RULE[:400]})
json.dump({"version": 1, "setup_cmd": "bash checks/setup.sh", "checks": checks, "not_applicable": na}, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
