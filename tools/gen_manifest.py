"""Writes MANIFEST.json: claimed are the properties with an entry in CLAIM."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
V = os.path.join(here, "..")
sys.path.insert(0, V)
from claims import CLAIM, NOT_APPLICABLE, HOOKS
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    if p in CLAIM:
        level, technique, note = CLAIM[p]
        checks.append({"property": p,
            "quick_cmd": f"python3 /verif/check.py {p} --tier quick",
            "thorough_cmd": f"python3 /verif/check.py {p} --tier thorough",
            "technique": technique, "level": level, "level_note": note})
na = [{"property": p, "reason": NOT_APPLICABLE.get(p, "not built yet")} for p in props if p not in CLAIM]
m = {"version": 1, "setup_cmd": "bash /verif/tools/setup.sh", "hooks": HOOKS, "checks": checks,
     "not_applicable": na,
     "notes": "TLA+ specifications in specs/, checked with TLC and bound to the code by replay and trace validation; see DESIGN.md"}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
