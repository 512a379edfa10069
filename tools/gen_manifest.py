#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from props_cfg.py and the not-applicable reasons below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props_cfg import PROPS
from not_applicable import NA
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in PROPS: continue
    c = PROPS[i]
    checks.append({
        "property": i,
        "quick_cmd": f"python3 check.py {i} --tier quick",
        "thorough_cmd": f"python3 check.py {i} --tier thorough",
        "technique": "deterministic simulation with fault injection (seeded search over " + c.get("space", "schedules and faults") + ")",
        "level": "exploration",
        "level_note": "Seeded sampling of executions of the real code (" + ", ".join(c["real"]) + ") inside the simulator; simulated: " + ", ".join(c["stub"]) + ". Evidence, not proof; trusts the simulator, its stubs and the reference model in the harness.",
    })
na = []
for i in ids:
    if i in PROPS: continue
    na.append({"property": i, "reason": NA.get(i, "the check for this property is not built yet")})
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "hooks": {"guard": "ARC_UTILITIES_SIMULATION", "enable": "the checks compile /repo's sources with -DARC_UTILITIES_SIMULATION"},
     "checks": checks, "not_applicable": na,
     "notes": "check.py PROP builds the harness from /repo's working tree and searches seeds; check.py --replay FILE re-executes a replay file. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not claimed")
