"""Write MANIFEST.json from properties.jsonl and harness/plans.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from harness.plans import PLANS  # noqa: E402

PY = "/opt/venv/bin/python"
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    if pid in PLANS:
        pl = PLANS[pid]
        checks.append({
            "property": pid,
            "quick_cmd": f"{PY} check.py {pid} quick",
            "thorough_cmd": f"{PY} check.py {pid} thorough",
            "technique": "TLA+ specification checked with TLC; model behaviours replayed in "
                         "the real code and recorded traces validated against the specification",
            "level": "model_checking",
            "level_note": pl.get("note") or
            "TLC checks the design model exhaustively within the stated constants; the code is "
            "bound by replaying model cases plus seeded larger cases and validating every "
            "recorded call with the trace specification " + pl["trace"] + ".tla. Inputs outside "
            "the explored cases are not covered.",
        })
    else:
        na.append({"property": pid, "reason": "no check built yet"})
m = {
    "version": 1,
    "setup_cmd": f"{PY} tools/selftest.py",
    "checks": checks,
    "not_applicable": na,
    "notes": "Language: TLA+ with TLC. See DESIGN.md.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks", len(na), "not applicable")
