"""Writes MANIFEST.json from the plan."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib")); import plan
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 lib/build.py",
     "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                 "technique": "symbolic execution of the compiled code (LLVM IR of /repo + std) with Z3, against a reference model",
                 "level": "model_checking", "level_note": plan.LEVEL[p["id"]]} for p in props if p["id"] in plan.PLAN],
     "not_applicable": [{"property": p["id"], "reason": plan.NA.get(p["id"], "no check yet: harness under construction")} for p in props if p["id"] not in plan.PLAN]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
