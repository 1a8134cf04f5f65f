"""Writes /verif/MANIFEST.json from the list of properties and of checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
sys.path.insert(0, os.path.join(V, "tools"))
from checks import CHECKS
from make_properties import PROPS

NA = {}
checks, na = [], []
for p in PROPS:
    pid = p["id"]
    if pid in CHECKS:
        plan = CHECKS[pid]
        checks.append(dict(
            property=pid,
            quick_cmd=f"bash check.sh {pid} quick",
            thorough_cmd=f"bash check.sh {pid} thorough",
            technique=plan.get("technique", "TLA+ specification: design model checked with TLC, traces of the real code validated against it by TLC"),
            level="model_checking",
            level_note=plan.get("note", "Design models are checked exhaustively within the constants of their .cfg files; the code is bound by traces (enumerated configurations plus seeded random and large cases, exact integer comparison modulo a prime), so it is decided for the executions explored only. Trusts TLC, the recording driver, and that CPU results stand for all devices."),
        ))
    else:
        na.append(dict(property=pid, reason=NA.get(pid, "check not built yet")))
man = dict(version=1, setup_cmd="bash setup.sh",
           hooks=dict(guard="TORCHMPS_VERIF (unused)", enable="No hooks are needed: everything the specification talks about is observable through the public API (forward hooks, state_dict, named_parameters, return values).", source_commits=[]),
           checks=checks, not_applicable=na,
           notes="TLA+ with TLC. See DESIGN.md. Findings: known_findings.txt.")
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
