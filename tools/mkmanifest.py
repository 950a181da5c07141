"""Writes MANIFEST.json from properties.jsonl and specs.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from specs import SPECS
NA = json.load(open(V + "/tools/not_applicable.json"))
HOOKS = json.load(open(V + "/tools/hooks.json")) if os.path.exists(V + "/tools/hooks.json") else None
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)["id"]
    if p in SPECS:
        s = SPECS[p]
        tech = s.get("technique") or "symbolic execution of the real generic code on solver-backed values (z3, uninterpreted functions), every feasible path within the bounds, native replay"
        note = s.get("note") or ("Bounded: every program, history and value within the bounds given in the evidence file; nothing outside them (" + (s.get("outside") or "larger bounds") + "). Trusts rustc, z3 (sampled queries re-decided by cvc5), the executor in /verif/symex and the harness' reference interpreter. Counterexamples count only when a native dev or release build reproduces them.")
        checks.append({"property": p, "quick_cmd": f"python3 check.py {p} quick", "thorough_cmd": f"python3 check.py {p} thorough", "technique": tech, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": p, "reason": NA.get(p, "no check built yet")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na, "notes": "Solver-based checking of the real code; see DESIGN.md."}
if HOOKS: m["hooks"] = HOOKS
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
