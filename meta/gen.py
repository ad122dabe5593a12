import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
from props import P
from claims import CHECKS, NA
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
ids = [p["id"] for p in P]
claimed = {c["property"] for c in CHECKS}
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": CHECKS,
     "not_applicable": [{"property": i, "reason": NA.get(i, "check not built yet")} for i in ids if i not in claimed],
     "notes": "All checks are static analyses over the compiler's MIR of /repo's current tree; see DESIGN.md. No hooks are needed in /repo."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
