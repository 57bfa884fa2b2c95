#!/usr/bin/env python3
"""Regenerate MANIFEST.json from properties.jsonl, the harness modules present and tools/notes.json."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{H}/properties.jsonl")]
notes = json.load(open(f"{H}/tools/notes.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{H}/harness/{i.lower()}.py") and i not in notes.get("na", {}):
        checks.append({"property": i, "quick_cmd": f"./run.py {i} --tier quick", "thorough_cmd": f"./run.py {i} --tier thorough",
                       "technique": "bounded symbolic execution of the real code (JAX primitives) decided by z3, counterexamples replayed",
                       "level": "other", "level_note": notes.get(i, notes["default"])})
    else:
        na.append({"property": i, "reason": notes.get("na", {}).get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -c \"import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); import jax, z3\"",
           "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo. Every check re-traces the code of /repo's working tree on each run."},
          open(f"{H}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
