#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and bins.txt from tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS, NOT_CLAIMED
with open(f"{root}/properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p.get("observe", []), "hook_needed": None},
        }) + "\n")
checks = []
with open(f"{root}/bins.txt", "w") as f:
    for p in PROPS:
        if p["id"] in NOT_CLAIMED: continue
        f.write(f'{p["id"]} {p["bin"]} {"cli" if p.get("cli") else "-"}\n')
        checks.append({"property": p["id"], "quick_cmd": f'./check.sh {p["id"]} quick',
                       "thorough_cmd": f'./check.sh {p["id"]} thorough',
                       "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NOT_CLAIMED.items()],
     "notes": "No hooks: the checks use the crates' public API and the weaver binary built from /repo's working tree. /repo carries only 'fix:' commits (see known-findings.json)."}
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
open(f"{root}/MANIFEST.json", "a").write("\n")

with open(f"{root}/DESIGN.md", "w") as f:
    f.write(open(f"{here}/design_head.md").read())
    for p in PROPS:
        f.write(f'### {p["id"]} {p["title"]}\n\n{p["statement"]}\n\n')
        if p["id"] in NOT_CLAIMED:
            f.write(f'Not applicable: {NOT_CLAIMED[p["id"]]}\n\n'); continue
        f.write(f'* Decided by: {p["technique"]} (level {p["level"]}, binary `{p["bin"]}`{", drives the CLI" if p.get("cli") else ""}).\n')
        f.write(f'* Enumerated, oracle, bounds: {p["note"]}\n')
        f.write(f'* Why tests cannot: {p["why"]}.\n')
        if p.get("cost"): f.write(f'* Cost: {p["cost"]}.\n')
        f.write("\n")
    f.write(open(f"{here}/design_tail.md").read())
    f.write(open(f"{here}/seeded.md").read())
