"""Writes /verif/MANIFEST.json from harness/r4v/checks.py and properties.jsonl."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
sys.dont_write_bytecode = True
from r4v import checks  # noqa: E402

props = [json.loads(x)["id"] for x in open(os.path.join(V, "properties.jsonl"))]
cs, na = [], []
for p in props:
    c = checks.CHECKS.get(p)
    if c is None or c.get("unclaimed"):
        na.append({"property": p, "reason": checks.REASONS.get(p, "check under construction")})
        continue
    cs.append({"property": p, "quick_cmd": f"python3 run_check.py {p} --tier quick", "thorough_cmd": f"python3 run_check.py {p} --tier thorough",
               "evidence_file": f"evidence/{p}.json", "technique": c["technique"], "level": "exploration", "level_note": c["note"]})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": cs, "not_applicable": na,
     "notes": "All checks run the real library (rebuilt from /repo's working tree into /verif/.cache) under mpirun with random workloads; "
              "reference models and monitors decide. No hooks in /repo are needed: every check observes the public interface."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(cs), "checks,", len(na), "not claimed")
